----------------------------- MODULE MC_Threads -----------------------------
(***************************************************************************)
(* Every interleaving of a few threads, objects and updates.               *)
(***************************************************************************)
EXTENDS Threads
CONSTANTS Most, Shared
Init == /\ own \in [Objects -> Threads] /\ val = [o \in Objects |-> 0] /\ did = val
        /\ at = [th \in Threads |-> Idle] /\ scratch = 0 /\ good = TRUE
Next == \E th \in Threads :
          \/ \E o \in Objects : \/ Begin(th, o, "ask")
                                \/ did[o] < Most /\ Begin(th, o, "add")
                                \/ \E u \in Owners : Hand(th, o, u)
          \/ Read(th, Shared) \/ Finish(th, Shared)
(* published objects stay as they are                                      *)
Published == [][\A o \in Objects : own[o] = Everyone => (own'[o] = Everyone /\ val'[o] = val[o])]_tvars
(* (with Shared TRUE, Right does not hold)                                  *)
=============================================================================
