----------------------------- MODULE Gen_Shelf ------------------------------
(***************************************************************************)
(* Enumerates the ways in which lattices are put aside and come back: n    *)
(* another lattice, s put aside, f fetch a copy, g fetch by moving away,   *)
(* x exchange, i assign to itself.  Only what is there is fetched, and a   *)
(* history ends with what can tell whether it went wrong.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Length, Places
VARIABLES hist, full
Init == hist = <<"n">> /\ full = {}
Next == /\ Len(hist) < Length
        /\ \/ hist' = Append(hist, "n") /\ UNCHANGED full
           \/ hist' = Append(hist, "i") /\ hist[Len(hist)] # "i" /\ UNCHANGED full
           \/ \E k \in Places :
                \/ hist' = Append(hist, "s" \o ToString(k)) /\ full' = full \union {k}
                \/ k \in full /\ hist' = Append(hist, "f" \o ToString(k)) /\ UNCHANGED full
                \/ k \in full /\ hist' = Append(hist, "g" \o ToString(k)) /\ full' = full \ {k}
                \/ k \in full /\ hist' = Append(hist, "x" \o ToString(k)) /\ UNCHANGED full
Emit == Len(hist) = Length => PrintT(<<"STIM", hist>>)
=============================================================================
