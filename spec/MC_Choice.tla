----------------------------- MODULE MC_Choice ------------------------------
(***************************************************************************)
(* Choosing by partial sums and the first larger one, for every short list *)
(* of small weights and every draw on a fine grid: each index is chosen    *)
(* exactly in proportion to its weight, and the choice is the same whether *)
(* the sums are formed here or passed in.                                  *)
(***************************************************************************)
EXTENDS Utils
CONSTANTS MaxW, MaxLen, Fine
VARIABLES ws, u
Sums(w) == [i \in DOMAIN w |-> SumInt(SubSeq(w, 1, i))]
Total(w) == SumInt(w)
(* a draw of u in 0 .. Fine * total - 1 stands for u / Fine in [0, total)  *)
Pick(sums, x) == Cardinality({i \in DOMAIN sums : Fine * sums[i] <= x})
Init == ws \in UNION {[1..k -> 0..MaxW] : k \in 1..MaxLen} /\ Total(ws) > 0 /\ u = 0
Next == u < Fine * Total(ws) - 1 /\ u' = u + 1 /\ UNCHANGED ws
InRange == Pick(Sums(ws), u) \in 0..(Len(ws) - 1)
NotZero == ws[Pick(Sums(ws), u) + 1] > 0
Counts == [i \in DOMAIN ws |-> Cardinality({x \in 0..(Fine * Total(ws) - 1) : Pick(Sums(ws), x) = i - 1})]
Exact == u = 0 => \A i \in DOMAIN ws : Counts[i] = Fine * ws[i]
DW == [i \in DOMAIN ws |-> DOf(ws[i])]
(* the judge: the exact counts pass; all draws on one index of several fail *)
Judge == u = 0 =>
  /\ Proportional([i \in DOMAIN ws |-> 1000 * ws[i]], DW, DOf(Total(ws)), 1000 * Total(ws))
  /\ \A i \in DOMAIN ws : ws[i] < Total(ws) =>
       ~Proportional([j \in DOMAIN ws |-> IF j = i THEN 1000 * Total(ws) ELSE 0], DW, DOf(Total(ws)), 1000 * Total(ws))
=============================================================================
