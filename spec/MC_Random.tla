----------------------------- MODULE MC_Random ------------------------------
(***************************************************************************)
(* Engines with explicit state (a small permutation generator stands for   *)
(* the twister) against Random's view of them as positions in a stream:    *)
(* through any history of draws, copies, saves and loads the next number   *)
(* of an engine is the one at its position.                                *)
(***************************************************************************)
EXTENDS Random, FiniteSets
CONSTANTS M, Seeds, Most
VARIABLES x, pos, arch, apos, n
vars == <<x, pos, arch, apos, n>>
E == {0, 1}
Step(s) == (5 * s + 3) % M
RECURSIVE At(_, _)
At(s, k) == IF k = 0 THEN s ELSE At(Step(s), k - 1)
Init == /\ \E f \in [E -> Seeds] : x = f /\ pos = [e \in E |-> Fresh(0, f[e])]
        /\ arch = -1 /\ apos = None /\ n = 0
Draw(e) == x' = [x EXCEPT ![e] = Step(@)] /\ pos' = [pos EXCEPT ![e] = Ahead(@, 1)] /\ UNCHANGED <<arch, apos>>
Copy(e, f) == x' = [x EXCEPT ![e] = x[f]] /\ pos' = [pos EXCEPT ![e] = pos[f]] /\ UNCHANGED <<arch, apos>>
Save(e) == arch' = x[e] /\ apos' = pos[e] /\ UNCHANGED <<x, pos>>
Load(e) == arch >= 0 /\ x' = [x EXCEPT ![e] = arch] /\ pos' = [pos EXCEPT ![e] = apos] /\ UNCHANGED <<arch, apos>>
Next == n < Most /\ n' = n + 1 /\ \E e \in E : Draw(e) \/ Save(e) \/ Load(e) \/ \E f \in E \ {e} : Copy(e, f)
Right == \A e \in E : x[e] = At(pos[e].seed, pos[e].pos)
SameFuture == \A e, f \in E : pos[e] = pos[f] => x[e] = x[f]
=============================================================================
