----------------------------- MODULE Gen_Search -----------------------------
(* Every sorted array of a few runs: values by rank, lengths by class      *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxRuns, Lengths, Gaps
VARIABLE hist
GapsQ == {"1", "1000"}
LengthsQ == {"1", "3", "6000", "10001"}
LengthsT == {"1", "2", "4999", "5001", "9999", "10000", "10001"}
Init == hist = <<>>
Next == Len(hist) < 2 * MaxRuns /\ \E n \in Lengths, g \in Gaps : hist' = hist \o <<g, n>>
Emit == hist # <<>> => PrintT(<<"STIM", hist>>)
=============================================================================
