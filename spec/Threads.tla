------------------------------ MODULE Threads ------------------------------
(***************************************************************************)
(* Who may use an object: the thread that owns it, or any thread once it   *)
(* is published, after which it is only asked.  What an object answers     *)
(* then depends on what was done to it and on nothing else, however the    *)
(* steps of the threads interleave, as long as an operation touches only   *)
(* its object: with a scratch variable shared by all it does not.          *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Threads, Objects, Everyone

Owners == Threads \cup {Everyone}
May(own, th, o, op) == own[o] = th \/ (own[o] = Everyone /\ op = "ask")
(* an owner hands an object to another thread or publishes it              *)
MayHand(own, th, o, u) == own[o] = th /\ u # th

VARIABLES own,      \* of each object
          val,      \* its state
          did,      \* the updates it has had: what its state should be
          at,       \* what each thread is doing
          scratch,  \* only for an implementation with shared scratch
          good      \* all answers so far were right
tvars == <<own, val, did, at, scratch, good>>

Idle == [op |-> "no"]
Begin(th, o, op) ==
  /\ at[th] = Idle /\ May(own, th, o, op)
  /\ at' = [at EXCEPT ![th] = [op |-> op, o |-> o, done |-> FALSE, x |-> 0]]
  /\ UNCHANGED <<own, val, did, scratch, good>>
Read(th, Shared) ==
  /\ at[th] # Idle /\ ~at[th].done
  /\ at' = [at EXCEPT ![th].done = TRUE, ![th].x = IF Shared THEN 0 ELSE val[at[th].o]]
  /\ scratch' = IF Shared THEN val[at[th].o] ELSE scratch
  /\ UNCHANGED <<own, val, did, good>>
Finish(th, Shared) ==
  /\ at[th] # Idle /\ at[th].done
  /\ LET o == at[th].o
         x == IF Shared THEN scratch ELSE at[th].x
     IN  IF at[th].op = "ask"
         THEN /\ good' = (good /\ x = did[o]) /\ UNCHANGED <<val, did>>
         ELSE /\ val' = [val EXCEPT ![o] = x + 1] /\ did' = [did EXCEPT ![o] = @ + 1] /\ UNCHANGED good
  /\ at' = [at EXCEPT ![th] = Idle]
  /\ UNCHANGED <<own, scratch>>
Hand(th, o, u) ==
  /\ at[th] = Idle /\ MayHand(own, th, o, u)
  /\ own' = [own EXCEPT ![o] = u]
  /\ UNCHANGED <<val, did, at, scratch, good>>

(* nobody sees an object in the middle of an update                        *)
Exclusive == \A a, b \in Threads :
               (a # b /\ at[a] # Idle /\ at[b] # Idle /\ at[a].o = at[b].o) => (at[a].op = "ask" /\ at[b].op = "ask")
Right == good /\ \A o \in Objects : val[o] = did[o]
=============================================================================
