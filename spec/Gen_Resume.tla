----------------------------- MODULE Gen_Resume -----------------------------
(***************************************************************************)
(* Enumerates checkpoints: for every class of object, every short history  *)
(* of its operations (three of them, by number) before, into a fresh or a  *)
(* used object, and every short history after.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Ways, Before, After
VARIABLE hist
Classes == {"kahan", "neumaier", "welford", "west", "integer", "hist", "moves", "group"}
Archives == {"text", "binary"}
Copies == {"assign", "clone", "take", "steal", "swap"}
Ops == {"0", "1", "2"}
Upto(n) == UNION {[1..k -> Ops] : k \in 0..n}
Init == hist = <<>>
Next == /\ hist = <<>>
        /\ \E c \in Classes, m \in {"fresh", "used"}, w \in Ways, p \in Upto(Before), q \in [1..After -> Ops] :
             hist' = <<c, m, w>> \o p \o <<"|">> \o q
Emit == hist # <<>> => PrintT(<<"STIM", hist>>)
=============================================================================
