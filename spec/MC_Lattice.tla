----------------------------- MODULE MC_Lattice -----------------------------
(***************************************************************************)
(* The laws of C05 - C08 on every small lattice: a state is a lattice with *)
(* one of its sites.                                                       *)
(***************************************************************************)
EXTENDS Lattice
CONSTANTS MaxSites
VARIABLES b, L, closed, a

Skew == [dim |-> 2, den |-> 2, P |-> <<<<2, 0>>, <<1, 3>>>>, R |-> NullM(2), nb |-> <<<<1, 0>>, <<1, 1>>>>]
Hex3 == [dim |-> 3, den |-> 2, P |-> <<<<2, 0, 0>>, <<1, 0, 0>>, <<0, 0, 3>>>>,
         R |-> <<<<0, 0, 0>>, <<0, 1, 0>>, <<0, 0, 0>>>>, nb |-> <<<<1, 0, 0>>, <<0, 0, 1>>>>]
Lattices == {Chain, Square, Triangular, Cubic3, Skew, Hex3}
Sizes(d, m) == {s \in [1..d -> 1..m] : NumSites(s) <= MaxSites}
Init == /\ b \in Lattices /\ closed \in BOOLEAN
        /\ L \in Sizes(b.dim, IF b.dim = 1 THEN MaxSites ELSE IF b.dim = 2 THEN 5 ELSE 3)
        /\ a = -1
Next == a + 1 \in Sites(L) /\ a' = a + 1 /\ UNCHANGED <<b, L, closed>>

WellFormed == Rational(b) /\ Det(Gram(b)) > 0

(* C05 *)
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
NeighborLaws ==
  IF a < 0 THEN TRUE ELSE
  LET nb(x) == NeighborList(b, L, closed, x)
  IN  /\ \A x \in Sites(L) : Count(nb(a), x) = Count(nb(x), a)
      /\ closed => Len(nb(a)) = 2 * Len(b.nb)
      /\ Len(nb(a)) <= 2 * Len(b.nb)
BuiltinOffsets ==
  IF a < 0 THEN TRUE ELSE
  b \in {Chain, Square, Triangular, Cubic3} =>
     Range1(Offsets(b)) = UnitVectors(b) /\ Len(Offsets(b)) = Cardinality(UnitVectors(b))

(* C06: a metric; squares of lengths are compared through                  *)
(* sqrt x <= sqrt y + sqrt z  iff  x <= y + z \/ (x - y - z)^2 <= 4 y z    *)
Triangle(x, y, z) == x <= y + z \/ (x - y - z) * (x - y - z) <= 4 * y * z
Metric ==
  IF a < 0 THEN TRUE ELSE
  LET D == TLCEval([x \in Sites(L) |-> [y \in Sites(L) |-> Dist2(b, L, closed, x, y)]])
  IN  a = 0 =>
      /\ \A x, y \in Sites(L) : D[x][y] = D[y][x] /\ (D[x][y] = 0) = (x = y)
      /\ \A x, y, z \in Sites(L) : Triangle(D[x][z], D[x][y], D[y][z])
      /\ closed => \A x, y, s \in Sites(L) : D[x][y] = D[UnMapped(L, x, s)][UnMapped(L, y, s)]
(* no image in a much larger box is closer *)
Minimal ==
  IF a < 0 THEN TRUE ELSE
  closed => LET d == Coords(L, a)
                shifts == Box([k \in Dims(L) |-> -3..3])
                G == Gram(b)
            IN  \A n \in shifts : MinNorm(G, L, d) <= NormG(G, [k \in Dims(L) |-> d[k] + L[k] * n[k]])

(* C08: a site's momentum multiples are distinct and centred *)
Centre(x) == [j \in Dims(L) |-> Coords(L, x)[j] - (L[j] \div 2)]
MomentumLaws ==
  IF a < 0 THEN TRUE ELSE
  /\ Centred(L, Centre(a))
  /\ \A x \in Sites(L) : x # a => \E j \in Dims(L) : (Centre(x)[j] - Centre(a)[j]) % L[j] # 0
  /\ Cardinality({n \in Box([j \in Dims(L) |-> -L[j]..L[j]]) : Centred(L, n)}) = NumSites(L)
=============================================================================
