------------------------------ MODULE MC_Grid ------------------------------
(***************************************************************************)
(* The laws of C01, C02 and C04 on every grid up to a bound: a state is a  *)
(* grid with one of its sites, a second one, and coordinates anywhere      *)
(* around it.                                                              *)
(***************************************************************************)
EXTENDS Grid, Integers, Sequences, FiniteSets

CONSTANTS MaxExtent, MaxDim, MaxSites, Beyond
VARIABLES L, a

Extents == {s \in UNION {[1..d -> 1..MaxExtent] : d \in 1..MaxDim} : NumSites(s) <= MaxSites}
Init == L \in Extents /\ a = 0
Next == a + 1 \in Sites(L) /\ a' = a + 1 /\ UNCHANGED L

Around == [Dims(L) -> -Beyond..(MaxExtent + Beyond)]

RowMajor == /\ OnGrid(L, Coords(L, a))
            /\ Index(L, Coords(L, a)) = a
            /\ a > 0 => LET p == Coords(L, a - 1)
                            c == Coords(L, a)
                        IN  \E k \in Dims(L) : /\ p[k] < c[k]
                                               /\ \A m \in 1..(k - 1) : p[m] = c[m]
Onto == Cardinality({Coords(L, i) : i \in Sites(L)}) = NumSites(L)

Translation ==
  \A b \in Sites(L) :
     /\ Mapped(L, a, b) \in Sites(L)
     /\ UnMapped(L, Mapped(L, a, b), a) = b
     /\ Mapped(L, a, UnMapped(L, b, a)) = b
     /\ UnMapped(L, a, b) = UnMapped(L, b, a)
     /\ (Mapped(L, a, b) = 0) = (a = b)
Wrapping ==
  a = 0 => \A c \in Around : LET w == Wrap(L, c)
                             IN  /\ OnGrid(L, w)
                                 /\ Multiple(L, VSub(w, c))
                                 /\ OnGrid(L, c) => w = c
                                 /\ Wrap(L, w) = w
Pairs ==
  LET n == NumSites(L)
  IN  \A b \in Sites(L) :
        LET k == PairIndex(n, a, b)
        IN  k \in 0..(NumPairs(n) - 1) /\ PairOf(n, k) = <<a, b>>
PairsOnto ==
  a = 0 => LET n == NumSites(L)
           IN  \A k \in 0..(NumPairs(n) - 1) : PairIndex(n, PairOf(n, k)[1], PairOf(n, k)[2]) = k
=============================================================================
