------------------------------ MODULE MC_Units ------------------------------
(***************************************************************************)
(* Every program of two units that include up to Most headers each, in any *)
(* order and repeatedly, over every way in which three headers can include *)
(* each other without a cycle.                                             *)
(***************************************************************************)
EXTENDS Units
CONSTANTS Headers, Most
VARIABLES deps, linkage, program, growing
vars == <<deps, linkage, program, growing>>
(* a header includes headers of smaller number, in any order               *)
Below(h) == {s \in UNION {[1..n -> 1..(h - 1)] : n \in 0..(h - 1)} : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
Init == /\ deps \in {d \in [1..Headers -> UNION {Below(h) : h \in 1..Headers}] : \A h \in 1..Headers : d[h] \in Below(h)}
        /\ linkage \in [1..Headers -> Linkages]
        /\ program = <<<<>>, <<>>>> /\ growing = 1
Next == \/ /\ Len(program[growing]) < Most
           /\ \E h \in 1..Headers : program' = [program EXCEPT ![growing] = Append(@, h)]
           /\ UNCHANGED <<deps, linkage, growing>>
        \/ growing = 1 /\ growing' = 2 /\ UNCHANGED <<deps, linkage, program>>

RECURSIVE Needs(_)
Needs(h) == {h} \union UNION {Needs(deps[h][k]) : k \in DOMAIN deps[h]}
Once == \A u \in 1..2 :
  LET T == Text(deps, program[u])
  IN  /\ \A i, j \in DOMAIN T : i # j => T[i] # T[j]
      (* what is needed is there, before it is needed, in any order        *)
      /\ {T[k] : k \in DOMAIN T} = UNION {Needs(program[u][k]) : k \in DOMAIN program[u]}
      /\ \A k \in DOMAIN T : Needs(T[k]) \subseteq {T[i] : i \in 1..k}
Together ==
  /\ (\A h \in 1..Headers : linkage[h] # "external") => LinksTogether(deps, linkage, program)
  /\ ~LinksTogether(deps, linkage, program) <=>
       \E h \in 1..Headers : linkage[h] = "external" /\ \A u \in 1..2 : h \in UNION {Needs(program[u][k]) : k \in DOMAIN program[u]}
Inv == Once /\ Together
=============================================================================
