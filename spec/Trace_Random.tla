---------------------------- MODULE Trace_Random ----------------------------
(***************************************************************************)
(* Random engines and their checkpoints (C28).  An engine is a position in *)
(* the stream of its seed: which numbers are there is learned from the     *)
(* engines that were seeded directly, and every engine that was restored   *)
(* must deliver the same ones.                                             *)
(***************************************************************************)
EXTENDS Replay, Random

VARIABLES e, slot, known
vars == <<t, l, e, slot, known>>
Init == ReplayInit /\ e = [k \in Regs |-> None] /\ slot = [k \in Regs |-> <<>>] /\ known = <<>>

Seed == /\ Is("seed") /\ e' = [e EXCEPT ![Ev.k] = Fresh(Ev.bits, Ev.seed)] /\ UNCHANGED <<slot, known>>
Skip == /\ Is("skip") /\ e' = [e EXCEPT ![Ev.k] = Ahead(@, Ev.n)] /\ UNCHANGED <<slot, known>>
(* numbers drawn: a stretch of the stream                                  *)
Draw == /\ Is("draw")
        /\ e' = [e EXCEPT ![Ev.k] = Ahead(@, Len(Ev.v))]
        /\ \A i \in DOMAIN Ev.v : LET p == Ahead(e[Ev.k], i - 1) IN p \in DOMAIN known => known[p] = Ev.v[i]
        /\ known' = [i \in {Ahead(e[Ev.k], j - 1) : j \in DOMAIN Ev.v} |-> Ev.v[i.pos - e[Ev.k].pos + 1]] @@ known
        /\ UNCHANGED slot
CopyEngine == /\ Is("copy") /\ e' = [e EXCEPT ![Ev.k] = e[Ev.from]] /\ UNCHANGED <<slot, known>>
Save == /\ Is("save") /\ slot' = [slot EXCEPT ![Ev.s] = [i \in DOMAIN Ev.ks |-> e[Ev.ks[i]]]] /\ UNCHANGED <<e, known>>
Load == /\ Is("load") /\ Ev.thrown = "no" /\ Len(Ev.ks) = Len(slot[Ev.s])
        /\ e' = [k \in Regs |-> IF \E i \in DOMAIN Ev.ks : Ev.ks[i] = k
                                THEN slot[Ev.s][CHOOSE i \in DOMAIN Ev.ks : Ev.ks[i] = k] ELSE e[k]]
        /\ UNCHANGED <<slot, known>>
(* an archive whose text is not an engine state is refused; the engine is  *)
(* not used any more                                                       *)
BadLoad == /\ Is("badload")
           /\ IF Ev.good THEN Ev.thrown = "no" /\ UNCHANGED e  \* its own state
              ELSE Ev.thrown = "yes" /\ e' = [e EXCEPT ![Ev.k] = None]
           /\ UNCHANGED <<slot, known>>
(* the state that the application prints, read by an engine                *)
Dump == /\ Is("dump")
        /\ IF Ev.given THEN Ev.status = 0 /\ Ev.readable /\ e' = [e EXCEPT ![Ev.k] = Fresh(64, Ev.seed)]
           ELSE Ev.status # 0 /\ UNCHANGED e
        /\ UNCHANGED <<slot, known>>
Next == \/ Advance /\ (Seed \/ Skip \/ Draw \/ CopyEngine \/ Save \/ Load \/ BadLoad \/ Dump)
        \/ Finished /\ UNCHANGED <<e, slot, known>>
=============================================================================
