---------------------------- MODULE Gen_Threads ----------------------------
(***************************************************************************)
(* Enumerates histories of objects that go from thread to thread: updates  *)
(* by the owner, hand-overs and publications.                              *)
(***************************************************************************)
EXTENDS Threads, TLC
CONSTANT Steps
VARIABLE hist
Th == {"0", "1"}
Ob == {"0", "1"}
Init == own = [o \in Ob |-> o] /\ hist = <<>> /\ val = 0 /\ did = 0 /\ at = 0 /\ scratch = 0 /\ good = TRUE
Next == /\ Len(hist) < Steps
        /\ \E th \in Th, o \in Ob :
             \/ /\ May(own, th, o, "add") /\ hist' = Append(hist, "u " \o th \o " " \o o) /\ UNCHANGED own
             \/ \E u \in Owners : /\ MayHand(own, th, o, u) /\ own' = [own EXCEPT ![o] = u]
                                  /\ hist' = Append(hist, "g " \o u \o " " \o o)
        /\ UNCHANGED <<val, did, at, scratch, good>>
Emit == Len(hist) = Steps => PrintT(<<"STIM", hist>>)
=============================================================================
