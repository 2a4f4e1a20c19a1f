-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* Rectangular grids of sites, periodic ("closed") or open, and walks on   *)
(* them (properties C01 - C04).                                            *)
(*                                                                         *)
(* A grid is its sequence L of positive extents.  Coordinates are          *)
(* sequences of integers of the same length; sites are numbered from 0 in  *)
(* row-major order.  Everything the library computes by loops, tables and  *)
(* remainders is stated here by definition.                                *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSets

Dims(L) == DOMAIN L
NumSites(L) == FoldLeft(LAMBDA a, x : a * x, 1, L)
Sites(L) == 0..(NumSites(L) - 1)

(* the number of sites in one step of coordinate k *)
Stride(L, k) == NumSites(SubSeq(L, k + 1, Len(L)))

Coords(L, i) == [k \in Dims(L) |-> (i \div Stride(L, k)) % L[k]]
Index(L, c) == FoldLeft(LAMBDA a, k : a * L[k] + c[k], 0, [k \in Dims(L) |-> k])
OnGrid(L, c) == \A k \in Dims(L) : c[k] >= 0 /\ c[k] < L[k]

VSub(b, a) == [k \in DOMAIN b |-> b[k] - a[k]]
VAdd(b, a) == [k \in DOMAIN b |-> b[k] + a[k]]

(* the on-grid coordinates congruent to c; TLA+'s % is never negative *)
Wrap(L, c) == [k \in Dims(L) |-> c[k] % L[k]]
Enforce(L, closed, c) == IF closed THEN Wrap(L, c) ELSE c

(* the site i such that (0, i) is (a, b) translated *)
Mapped(L, a, b) == Index(L, Wrap(L, VSub(Coords(L, b), Coords(L, a))))
UnMapped(L, i, a) == Index(L, Wrap(L, VAdd(Coords(L, a), Coords(L, i))))

(* the shortest step congruent to d modulo n, positive when there are two *)
MinStep(n, d) == LET r == d % n IN IF 2 * r > n THEN r - n ELSE r
Jump(L, closed, a, b) ==
  LET d == VSub(Coords(L, b), Coords(L, a))
  IN  IF closed THEN [k \in Dims(L) |-> MinStep(L[k], d[k])] ELSE d

Multiple(L, c) == \A k \in Dims(L) : c[k] % L[k] = 0
Winding(L, c) == [k \in Dims(L) |-> c[k] \div L[k]]

(* pairs of n items; first and second in this order *)
PairIndex(n, a, b) == b * n + a
PairOf(n, k) == <<k % n, k \div n>>
NumPairs(n) == n * n
=============================================================================
