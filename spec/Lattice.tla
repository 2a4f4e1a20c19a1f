------------------------------- MODULE Lattice -------------------------------
(***************************************************************************)
(* Bravais lattices and finite lattices cut out of them (C05 - C10).       *)
(*                                                                         *)
(* A Bravais lattice is a record                                           *)
(*   dim, den : its dimension and a common denominator                     *)
(*   P, R     : component i of primitive vector j is                       *)
(*              (P[j][i] + R[j][i] sqrt 3) / den                           *)
(*   nb       : one of each pair of opposite neighbour offsets             *)
(* whose scalar products are rational (no sqrt 3 survives in them), so     *)
(* that lengths are compared exactly, as integers: den^2 times the square  *)
(* of the length of the integer combination c is Norm(b, c).               *)
(***************************************************************************)
EXTENDS Grid, Big, Integers, Sequences, SequencesExt, FiniteSets, TLC

Range1(f) == {f[k] : k \in DOMAIN f}
SumI(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
DotI(u, v) == SumI([k \in DOMAIN u |-> u[k] * v[k]])
NullM(d) == [j \in 1..d |-> [i \in 1..d |-> 0]]
UnitM(d) == [j \in 1..d |-> [i \in 1..d |-> IF i = j THEN 1 ELSE 0]]
Neg(c) == [k \in DOMAIN c |-> -c[k]]

Cubic(d) == [dim |-> d, den |-> 1, P |-> UnitM(d), R |-> NullM(d), nb |-> UnitM(d)]
Chain == Cubic(1)
Square == Cubic(2)
Cubic3 == Cubic(3)
Triangular == [dim |-> 2, den |-> 2,
               P |-> <<<<2, 0>>, <<1, 0>>>>, R |-> <<<<0, 0>>, <<0, 1>>>>,
               nb |-> <<<<1, 0>>, <<0, 1>>, <<1, -1>>>>]

(* den^2 times the scalar products of the primitive vectors *)
Gram(b) == [i \in 1..b.dim |-> [j \in 1..b.dim |->
              DotI(b.P[i], b.P[j]) + 3 * DotI(b.R[i], b.R[j])]]
Rational(b) == \A i, j \in 1..b.dim : DotI(b.P[i], b.R[j]) + DotI(b.R[i], b.P[j]) = 0

NormG(G, c) == SumI([i \in DOMAIN c |-> c[i] * DotI(G[i], c)])
Norm(b, c) == NormG(Gram(b), c)

(* determinant and adjugate of an integer matrix *)
Minor(M, r, s) == LET skip(k, x) == IF k < x THEN k ELSE k + 1
                  IN  [i \in 1..(Len(M) - 1) |-> [j \in 1..(Len(M) - 1) |-> M[skip(i, r)][skip(j, s)]]]
RECURSIVE Det(_)
Det(M) == IF Len(M) = 0 THEN 1 ELSE
          SumI([j \in 1..Len(M) |-> (IF j % 2 = 1 THEN 1 ELSE -1) * M[1][j] * Det(Minor(M, 1, j))])
AdjDiag(M, k) == Det(Minor(M, k, k))

(* ----------------------- minimum image distances ----------------------- *)
(* all integer vectors of a box, as sequences                              *)
RECURSIVE Box(_)
Box(ranges) == IF ranges = <<>> THEN {<<>>}
               ELSE {<<x>> \o y : x \in Head(ranges), y \in Box(Tail(ranges))}

(* the integer square root of a number below 2^31, between lo and hi       *)
RECURSIVE ISqrt(_, _, _)
ISqrt(n, lo, hi) == IF lo = hi THEN lo
                    ELSE LET m == (lo + hi + 1) \div 2
                         IN  IF m * m <= n THEN ISqrt(n, m, hi) ELSE ISqrt(n, lo, m - 1)

(* The periodic images of r no longer than the reduced r itself: any       *)
(* vector c with Norm(c) <= q has c[m]^2 * Det(G) <= q * AdjDiag(G, m), so *)
(* the box contains them all.                                              *)
Images(G, L, r) ==
  LET w == [k \in Dims(L) |-> MinStep(L[k], r[k])]
      q == NormG(G, w)
      det == Det(G)
      M(k) == LET bound == (q * AdjDiag(G, k)) \div det
              IN  ISqrt(bound, 0, 46340)
      rng(k) == LET m == TLCEval(M(k))
                    lo == -((m + w[k]) \div L[k])
                    hi == (m - w[k]) \div L[k]
                IN  {w[k] + L[k] * n : n \in lo..hi}
  IN  Box([k \in Dims(L) |-> rng(k)])
MinNorm(G, L, r) == LET S == TLCEval({NormG(G, c) : c \in Images(G, L, r)})
                    IN  CHOOSE x \in S : \A y \in S : x <= y
Shortest(G, L, r) == LET I == TLCEval(Images(G, L, r))
                         S == TLCEval({NormG(G, c) : c \in I})
                         m == CHOOSE x \in S : \A y \in S : x <= y
                     IN  {c \in I : NormG(G, c) = m}

(* the vectors that may be reported from site a to site b *)
Between(b, L, closed, x, y) ==
  LET d == VSub(Coords(L, y), Coords(L, x))
  IN  IF closed THEN Shortest(Gram(b), L, d) ELSE {d}
Dist2(b, L, closed, x, y) ==
  LET d == VSub(Coords(L, y), Coords(L, x))
  IN  IF closed THEN MinNorm(Gram(b), L, d) ELSE Norm(b, d)

(* ------------------------------ neighbours ----------------------------- *)
Offsets(b) == FlattenSeq([k \in DOMAIN b.nb |-> <<b.nb[k], Neg(b.nb[k])>>])
Ints(S) == SetToSortSeq(S, <)
Sorted(s) == SortSeq(s, <)
NeighborList(b, L, closed, x) ==
  LET c == Coords(L, x)
      T == [k \in DOMAIN Offsets(b) |-> VAdd(c, Offsets(b)[k])]
      on == IF closed THEN T ELSE SelectSeq(T, LAMBDA v : OnGrid(L, v))
  IN  Sorted([k \in DOMAIN on |-> Index(L, Wrap(L, on[k]))])
UnitVectors(b) ==
  LET d == b.dim
      far == [1..d -> -3..3]
  IN  {c \in far : Norm(b, c) = b.den * b.den}

(* ------------------------- real numbers, to 72 bits -------------------- *)
(* 2^72 sqrt 3, rounded down *)
Bits == 72
SqrtThree == <<1, <<2853, 2675, 1226, 2136, 1966, 2998, 1>>>>
ASSUME SqrtThreeIsRight ==
  /\ BLe(BMul(SqrtThree, SqrtThree), BShl(BI(3), 2 * Bits))
  /\ BLt(BShl(BI(3), 2 * Bits), BMul(BAdd(SqrtThree, BOne), BAdd(SqrtThree, BOne)))

(* den times component i of the combination c, as a dyadic; c is a sequence *)
(* of big integers                                                         *)
CompB(b, c, i) ==
  LET p == BSum([j \in 1..b.dim |-> BMul(c[j], BI(b.P[j][i]))])
      r == BSum([j \in 1..b.dim |-> BMul(c[j], BI(b.R[j][i]))])
  IN  IF r = BZero THEN DMk(p, 0)
      ELSE DMk(BAdd(BShl(p, Bits), BMul(r, SqrtThree)), -Bits)
Bigs(c) == [k \in DOMAIN c |-> BI(c[k])]
BVSub(u, v) == [k \in DOMAIN u |-> BSub(u[k], v[k])]
BVAdd(u, v) == [k \in DOMAIN u |-> BAdd(u[k], v[k])]

(* den times the size of the terms of that component: rounding is relative *)
(* to it                                                                   *)
AbsI(x) == IF x < 0 THEN -x ELSE x
TermsB(b, c, i) == BAdd(BOne, BSum([j \in 1..b.dim |-> BMul(BAbs(c[j]), BI(AbsI(b.P[j][i]) + 2 * AbsI(b.R[j][i])))]))

(* an observed vector agrees with the combination c of primitive vectors *)
IsVectorB(b, v, c) ==
  /\ Len(v) = b.dim /\ Len(c) = b.dim
  /\ \A i \in 1..b.dim :
       /\ IsFin(v[i])
       /\ DLe(DShl(DAbs(DSub(DMulI(v[i], b.den), CompB(b, c, i))), 40), DMk(TermsB(b, c, i), 0))
IsVector(b, v, c) == IsVectorB(b, v, Bigs(c))
(* den^2 times the squared length, and an observed length agrees with it   *)
NormB(b, c) == LET G == Gram(b)
               IN  BSum([i \in 1..b.dim |-> BMul(c[i], BSum([j \in 1..b.dim |-> BMul(BI(G[i][j]), c[j])]))])
IsLengthB(b, x, c) ==
  /\ IsFin(x) /\ BSgn(x.m) >= 0
  /\ LET size == BSum([i \in 1..b.dim |-> BMul(TermsB(b, c, i), TermsB(b, c, i))])
     IN  DLe(DShl(DAbs(DSub(DMulI(DMul(x, x), b.den * b.den), DMk(NormB(b, c), 0))), 40), DMk(size, 0))
IsLength(b, x, c) == IsLengthB(b, x, Bigs(c))

(* pi: Machin's formula in fixed point with Bits + 12 bits *)
Fx == Bits + 12
Drop(x, n) == BMk(x[1], IF Len(x[2]) <= n THEN <<>> ELSE SubSeq(x[2], n + 1, Len(x[2])))
RECURSIVE ArcTanInv(_, _, _)
ArcTanInv(n, term, k) ==  \* sum over j >= k of (-1)^j term / (n^(2(j-k)) (2j+1))
  IF term = BZero THEN BZero
  ELSE LET x == BDivSmall(term, 2 * k + 1)
           rest == ArcTanInv(n, BDivSmall(term, n * n), k + 1)
       IN  BAdd(IF k % 2 = 0 THEN x ELSE BNeg(x), rest)
PiFx == LET one == BShl(BOne, Fx)
        IN  BMul(BI(4), BSub(BMul(BI(4), ArcTanInv(5, BDivSmall(one, 5), 0)),
                             ArcTanInv(239, BDivSmall(one, 239), 0)))
Pi == DMk(PiFx, -Fx)
TwoPi == DShl(Pi, 1)
(* 3.14159265358979323 < pi < 3.14159265358979324 *)
ASSUME PiIsRight ==
  LET scaled == BMul(PiFx, BMul(BI(100000000), BI(1000000000)))
  IN  /\ BLt(BShl(BAdd(BMul(BI(314159265), BI(1000000000)), BI(358979323)), Fx), scaled)
      /\ BLt(scaled, BShl(BAdd(BMul(BI(314159265), BI(1000000000)), BI(358979324)), Fx))

(* cosine and sine of 2 pi m / n, in fixed point *)
RECURSIVE Taylor(_, _, _)
Taylor(term, x2, k) ==  \* alternating sum of term * x^(2j) k! / (k + 2j)!
  IF term = BZero THEN BZero
  ELSE LET nxt == BDivSmall(Drop(BMul(term, x2), Fx \div 12), (k + 1) * (k + 2))
       IN  BSub(term, Taylor(nxt, x2, k + 2))
CosSin(m, n) ==
  LET x == BDivSmall(BMul(PiFx, BI(2 * m)), n)
      x2 == Drop(BMul(x, x), Fx \div 12)
  IN  <<Taylor(BShl(BOne, Fx), x2, 0), Taylor(x, x2, 1)>>

(* ------------------------------- momenta ------------------------------- *)
(* the integer nearest to the dyadic x over 2 pi den *)
RECURSIVE Nearest(_, _)
Nearest(x, den) ==
  IF ~IsFin(x) THEN 99999999 ELSE
  IF BSgn(x.m) < 0 THEN -Nearest(DNeg(x), den) ELSE
  LET y == DAdd(x, DMulI(Pi, den))
      h == y.e + Fx
      w == BMul(PiFx, BI(2 * den))
      q == IF h >= 0 THEN BQuo(BShl(y.m, h), w) ELSE BQuo(y.m, BShl(w, -h))
  IN  IF Len(q[2]) > 2 THEN 99999999 ELSE BToInt(q)
(* den times the scalar product of an observed momentum with extent times  *)
(* primitive vector j                                                      *)
Phase(b, L, k, j) ==
  DMulI(DSum([i \in 1..b.dim |->
                LET p == b.P[j][i]
                    r == b.R[j][i]
                IN  IF r = 0 THEN DMulI(k[i], p)
                    ELSE DMul(k[i], DMk(BAdd(BShl(BI(p), Bits), BMul(BI(r), SqrtThree)), -Bits))]),
        L[j])
(* the size of its terms: rounding is relative to it                      *)
PhaseSize(b, L, k, j) ==
  DAdd(DOf(1), DMulI(DSum([i \in 1..b.dim |-> DMulI(DAbs(k[i]), AbsI(b.P[j][i]) + 2 * AbsI(b.R[j][i]))]), L[j]))
(* the multiple of 2 pi which that is, and whether it is one *)
Multiples(b, L, k) == [j \in 1..b.dim |-> Nearest(Phase(b, L, k, j), b.den)]
IsMomentum(b, L, k, n) ==
  /\ Len(k) = b.dim /\ \A i \in 1..b.dim : IsFin(k[i])
  /\ \A j \in 1..b.dim :
       DLe(DShl(DAbs(DSub(Phase(b, L, k, j), DMulI(TwoPi, n[j] * b.den))), 36), PhaseSize(b, L, k, j))
Centred(L, n) == \A j \in Dims(L) : n[j] >= -(L[j] \div 2) /\ n[j] <= L[j] - 1 - (L[j] \div 2)

(* ----------------------- structure factor ------------------------------ *)
RECURSIVE GcdI(_, _)
GcdI(x, y) == IF y = 0 THEN x ELSE GcdI(y, x % y)
LcmAll(L) == FoldLeft(LAMBDA x, y : (x \div GcdI(x, y)) * y, 1, L)
(* n: multiples of the momentum; occ: dyadics; T: table of CosSin by m     *)
Modulus2(L, n, occ, T, M) ==
  LET ph(x) == LET c == Coords(L, x) IN SumI([j \in Dims(L) |-> n[j] * c[j] * (M \div L[j])]) % M
      re == DSum([x \in 1..Len(occ) |-> DMul(occ[x], DMk(T[ph(x - 1)][1], -Fx))])
      im == DSum([x \in 1..Len(occ) |-> DMul(occ[x], DMk(T[ph(x - 1)][2], -Fx))])
  IN  DAdd(DMul(re, re), DMul(im, im))
=============================================================================
