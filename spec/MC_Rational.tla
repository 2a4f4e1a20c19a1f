---------------------------- MODULE MC_Rational ----------------------------
(* The field and order laws, and the text round trip, on all small         *)
(* rationals: a state is a pair of them.                                   *)
EXTENDS Rational, FiniteSets
CONSTANT N
VARIABLES a, b, c

Q == {q \in {<<BI(n), BI(d)>> : n \in -N..N, d \in 1..N} : Canonical(q)}
Canon(n, d) == CHOOSE q \in {<<BI(x), BI(y)>> : x \in -(N * N)..(N * N), y \in 1..(N * N)} : IsQuotient(q, n, d)
Init == a \in Q /\ b = QZero /\ c = QZero
Next == \E x, y \in Q : b' = x /\ c' = y /\ UNCHANGED a /\ b = QZero /\ c = QZero

Trichotomy == Cmp(a, b) \in {-1, 0, 1} /\ Cmp(b, a) = -Cmp(a, b) /\ (Cmp(a, b) = 0) = (a = b)
Transitive == Cmp(a, b) <= 0 /\ Cmp(b, c) <= 0 => Cmp(a, c) <= 0
(* the results of equal value are one canonical form *)
Commutes == /\ BMul(Num("+", a, b), Den("+", b, a)) = BMul(Num("+", b, a), Den("+", a, b))
            /\ BMul(Num("*", a, b), Den("*", b, a)) = BMul(Num("*", b, a), Den("*", a, b))
(* (a - b) + b = a and (a / b) * b = a *)
Inverses ==
  LET s == <<Num("-", a, b), Den("-", a, b)>>
      r == <<Num("/", a, b), Den("/", a, b)>>
  IN  /\ BMul(Num("+", s, b), a[2]) = BMul(a[1], Den("+", s, b))
      /\ b # QZero => BMul(Num("*", r, b), a[2]) = BMul(a[1], Den("*", r, b))
RoundTrip ==
  LET p == RationalAt("int", Text(a), 1)
  IN  p[1] /\ p[2] = a[1] /\ p[3] = a[2] /\ p[4] = Len(Text(a)) + 1
(* the order is compatible with addition *)
Monotone == Cmp(a, b) <= 0 =>
  LET x == <<Num("+", a, c), Den("+", a, c)>>
      y == <<Num("+", b, c), Den("+", b, c)>>
  IN  Cmp(x, y) <= 0
=============================================================================
