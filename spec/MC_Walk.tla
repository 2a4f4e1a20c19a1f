------------------------------ MODULE MC_Walk ------------------------------
(* Every walk on every small grid. *)
EXTENDS Walk, FiniteSets

CONSTANTS MaxExtent, MaxDim, MaxSites, MaxWind

Extents == {s \in UNION {[1..d -> 1..MaxExtent] : d \in 1..MaxDim} : NumSites(s) <= MaxSites}

Init == /\ L \in Extents /\ closed \in BOOLEAN
        /\ first \in Sites(L) /\ here = first /\ acc = Zero(L)
Next == \E b \in Sites(L) : Hop(b)
Bounded == \A k \in Dims(L) : acc[k] <= MaxWind * L[k] /\ acc[k] >= -MaxWind * L[k]

(* each jump lies in (-n/2, n/2] and is congruent to the difference *)
JumpMinimal ==
  \A b \in Sites(L) :
    LET j == Jump(L, closed, here, b)
        d == VSub(Coords(L, b), Coords(L, here))
    IN  IF closed
        THEN \A k \in Dims(L) : /\ 2 * j[k] <= L[k] /\ 2 * j[k] > -L[k]
                                /\ (j[k] - d[k]) % L[k] = 0
        ELSE j = d
=============================================================================
