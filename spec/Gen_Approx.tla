----------------------------- MODULE Gen_Approx -----------------------------
(* Every combination of a small value, number and settings of tolerances   *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Sets
VARIABLE hist
SetsQ == {<<"abs", "1">>, <<"abs", "-1">>, <<"abs", "0">>, <<"rel", "2">>, <<"rel", "-1">>, <<"rel", "0">>}
Vals == -3..3
Init == hist = <<>>
Next == /\ hist = <<>>
        /\ \E v \in Vals, s \in {<<>>} \cup Sets \cup {a \o b : a \in Sets, b \in Sets} :
             hist' = <<ToString(v)>> \o s
Emit == hist # <<>> => PrintT(<<"STIM", hist>>)
=============================================================================
