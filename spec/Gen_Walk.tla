------------------------------ MODULE Gen_Walk ------------------------------
(* Prints every walk of Depth hops on every small grid, for the driver.    *)
EXTENDS MC_Walk, TLC
CONSTANT Depth
VARIABLE hist

RECURSIVE Words(_)
Words(s) == IF s = <<>> THEN "" ELSE " " \o ToString(Head(s)) \o Words(Tail(s))
GInit == Init /\ hist = <<"start " \o (IF closed THEN "1 " ELSE "0 ") \o ToString(Len(L)) \o Words(L)
                          \o " " \o ToString(first)>>
GNext == /\ Len(hist) <= Depth
         /\ \E b \in Sites(L) : Hop(b) /\ hist' = Append(hist, "hop " \o ToString(b))
Emit == Len(hist) = Depth + 1 => PrintT(<<"STIM", hist>>)
=============================================================================
