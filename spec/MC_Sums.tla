------------------------------- MODULE MC_Sums ------------------------------
(***************************************************************************)
(* The two compensated summation algorithms on floating-point numbers of   *)
(* P bits (round to nearest, ties to even), for every short sequence of    *)
(* the given values: the bounds that Objects puts on the sums are those    *)
(* the algorithms keep.  Numbers here are integers; the rounding unit is   *)
(* u = 2^-P.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS P, Vals, Most
ValsQuick == {-192, -13, -8, -1, 0, 1, 7, 10, 15, 112, 240, 208 * 16, -(208 * 16)}
ValsThorough == {-(208 * 16), -240, -192, -112, -15, -13, -10, -8, -7, -1, 0, 1, 3, 7, 9, 10, 13, 15, 88, 112, 176, 240, 208 * 16, 240 * 16}
VARIABLES n, s, m,      \* exact: number, sum, sum of magnitudes
          k, c,         \* Kahan
          h, d          \* Neumaier
vars == <<n, s, m, k, c, h, d>>
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Bits(_)
Bits(x) == IF x = 0 THEN 0 ELSE 1 + Bits(x \div 2)
RECURSIVE Pow(_)
Pow(e) == IF e = 0 THEN 1 ELSE 2 * Pow(e - 1)
RoundMag(x) ==
  LET e == Bits(x) - P
      q == Pow(e)
      lo == x \div q
      r == x % q
  IN  IF e <= 0 THEN x
      ELSE IF 2 * r > q \/ (2 * r = q /\ lo % 2 = 1) THEN (lo + 1) * q ELSE lo * q
Fl(x) == IF x < 0 THEN -RoundMag(-x) ELSE RoundMag(x)

Init == n = 0 /\ s = 0 /\ m = 0 /\ k = 0 /\ c = 0 /\ h = 0 /\ d = 0
Next == \E x \in Vals :
  /\ n < Most /\ Fl(x) = x
  /\ n' = n + 1 /\ s' = s + x /\ m' = m + Abs(x)
  /\ LET y == Fl(x - c)
         t == Fl(k + y)
     IN  c' = Fl(Fl(t - k) - y) /\ k' = t
  /\ LET t == Fl(h + x)
     IN  /\ d' = Fl(d + (IF Abs(h) >= Abs(x) THEN Fl(Fl(h - t) + x) ELSE Fl(Fl(x - t) + h)))
         /\ h' = t
U == Pow(P)
KahanBound == n > 0 => Abs(k - s) * U <= 4 * m
NeumaierBound == n > 0 => Abs(Fl(h + d) - s) * U * U <= 2 * U * Abs(s) + 2 * n * n * m
=============================================================================
