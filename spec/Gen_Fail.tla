------------------------------ MODULE Gen_Fail ------------------------------
(* Every short life of exceptions: copies, assignments, throws, ends       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Most
VARIABLES hist, live
Kinds == {"move", "prob", "parse", "overflow", "enum", "rational", "sequence"}
Init == hist = <<>> /\ live = {}
Ways == {"clone", "assign", "throw"}
Next ==
  \/ hist = <<>> /\ (\E k \in Kinds : hist' = <<k>>) /\ live' = {0}
  \/ /\ hist # <<>> /\ Len(hist) <= Most
     /\ \/ \E w \in Ways, f \in live : \E k \in {0, 1, 2} \ {f} :
             hist' = Append(hist, "copy " \o ToString(k) \o " " \o ToString(f) \o " " \o w) /\ live' = live \cup {k}
        \/ Cardinality(live) > 1 /\ \E k \in live : hist' = Append(hist, "drop " \o ToString(k)) /\ live' = live \ {k}
Emit == Len(hist) = Most + 1 => PrintT(<<"STIM", hist>>)
=============================================================================
