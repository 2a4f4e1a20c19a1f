----------------------------- MODULE MC_Moments -----------------------------
(***************************************************************************)
(* Means and variances: the sums kept by Objects are the definitions, and  *)
(* West's update (Welford's, with unit weights), in exact arithmetic, has  *)
(* exactly these moments.  Every short sequence of small values, weights.  *)
(***************************************************************************)
EXTENDS Objects
CONSTANTS Vals, Weights, Most
VARIABLES seen,           \* the values with a positive weight
          m,              \* Objects' moments
          w, mean, m2     \* the updating algorithm: rationals <<num, den>>
vars == <<seen, m, w, mean, m2>>
ValsSmall == {-2, 0, 1, 3}
WeightsSmall == {-1, 0, 1, 2}

Q(a, b) == <<a, b>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
Red(q) == LET g == Gcd(Abs(q[1]), q[2]) IN <<q[1] \div g, q[2] \div g>>
QAdd(x, y) == Red(<<x[1] * y[2] + y[1] * x[2], x[2] * y[2]>>)
QSub(x, y) == QAdd(x, <<-y[1], y[2]>>)
QMul(x, y) == Red(<<x[1] * y[1], x[2] * y[2]>>)

Init == seen = <<>> /\ m = Moments0 /\ w = 0 /\ mean = Q(0, 1) /\ m2 = Q(0, 1)
Next == \E x \in Vals, v \in Weights :
  /\ Len(seen) < Most
  /\ m' = MAdd(m, DOf(x), DOf(v))
  /\ IF v <= 0 THEN UNCHANGED <<seen, w, mean, m2>>
     ELSE /\ seen' = Append(seen, <<x, v>>)
          /\ w' = w + v
          /\ mean' = QAdd(mean, QMul(Q(v, w + v), QSub(Q(x, 1), mean)))
          /\ m2' = QAdd(m2, QMul(Q(v, 1), QMul(QSub(Q(x, 1), mean), QSub(Q(x, 1), mean'))))

Sum(F(_)) == LET f[i \in 0..Len(seen)] == IF i = 0 THEN 0 ELSE f[i - 1] + F(i) IN f[Len(seen)]
\* Lagrange: W * sum of weighted squared deviations, over pairs
Pairs == Sum(LAMBDA i : LET g[j \in 0..i] == IF j = 0 THEN 0
                              ELSE g[j - 1] + seen[i][2] * seen[j][2] * (seen[i][1] - seen[j][1]) * (seen[i][1] - seen[j][1])
                        IN  g[i])
Exact(d, x) == DEq(d, DOf(x))
Inv ==
  /\ m.n = Len(seen)
  /\ Exact(m.w, w) /\ Exact(m.w, Sum(LAMBDA i : seen[i][2]))
  /\ Exact(m.w2, Sum(LAMBDA i : seen[i][2] * seen[i][2]))
  /\ Exact(m.p, Sum(LAMBDA i : seen[i][2] * seen[i][1]))
  /\ Exact(Spread(m), Pairs)
  /\ SpreadWithin(m, Spread(m))
  /\ Pairs # 0 => ~SpreadWithin(m, DMulI(Spread(m), 2)) /\ ~SpreadWithin(m, DZero)
  \* the algorithm
  /\ w > 0 => mean[1] * w = Sum(LAMBDA i : seen[i][2] * seen[i][1]) * mean[2]
  /\ m2[1] * w = Pairs * m2[2]
=============================================================================
