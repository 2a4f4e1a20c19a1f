------------------------------ MODULE MC_Moves ------------------------------
(***************************************************************************)
(* Move statistics with checkpoints and copies: every short history.       *)
(***************************************************************************)
EXTENDS Objects
CONSTANT Most
VARIABLES a,     \* the statistics
          b,     \* a copy
          s,     \* a checkpoint
          ra, rb, rs  \* what was recorded in each, as a sequence of outcomes ("P" is a pending proposal)
vars == <<a, b, s, ra, rb, rs>>
Half == DMk(BOne, -1)
M0 == Moves("", <<65>>)
Init == a = M0 /\ b = M0 /\ s = M0 /\ ra = <<>> /\ rb = <<>> /\ rs = <<>>

NoP(r) == SelectSeq(r, LAMBDA x : x # "P")
Next ==
  \/ /\ MayPropose(a) /\ Len(ra) < Most
     /\ a' = Proposed(a) /\ ra' = Append(ra, "P") /\ UNCHANGED <<b, s, rb, rs>>
  \/ \E how \in {"A", "R", "I"} :
       /\ MayDecide(a) /\ a' = Decided(a, how, Half) /\ ra' = Append(NoP(ra), how) /\ UNCHANGED <<b, s, rb, rs>>
  \/ \E how \in {"A", "R", "I"} :
       /\ MayPropose(a) /\ Len(ra) < Most
       /\ a' = Decided(Proposed(a), how, Half) /\ ra' = Append(ra, how) /\ UNCHANGED <<b, s, rb, rs>>
  \/ a' = Cleared(a) /\ ra' = <<>> /\ UNCHANGED <<b, s, rb, rs>>
  \/ b' = a /\ rb' = ra /\ UNCHANGED <<a, s, ra, rs>>
  \/ a' = b /\ ra' = rb /\ UNCHANGED <<b, s, rb, rs>>
  \/ s' = a /\ rs' = ra /\ UNCHANGED <<a, b, ra, rb>>
  \/ a' = s /\ ra' = rs /\ UNCHANGED <<b, s, rb, rs>>

Count(r, x) == Len(SelectSeq(r, LAMBDA y : y = x))
Tells(o, r) ==
  /\ o.pend = (r # <<>> /\ r[Len(r)] = "P")
  /\ o.acc = Count(r, "A") /\ o.rej = Count(r, "R") /\ o.imp = Count(r, "I")
  /\ o.prop = Len(r)
  /\ o.prop = o.acc + o.rej + o.imp + (IF o.pend THEN 1 ELSE 0)
  /\ o.t.n = o.acc + o.rej + o.imp
  /\ DEq(o.t.s, DMulI(Half, o.acc + o.rej))
  /\ MayPropose(o) # MayDecide(o)
Inv == Tells(a, ra) /\ Tells(b, rb) /\ Tells(s, rs)
=============================================================================
