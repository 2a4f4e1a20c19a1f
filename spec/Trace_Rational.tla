--------------------------- MODULE Trace_Rational ---------------------------
(* Executions of the rational calculator against Rational (C11 - C13).     *)
EXTENDS Replay, Rational

VARIABLES T,   \* integer type of the rationals
          r    \* the registers
vars == <<t, l, T, r>>
Same == UNCHANGED <<T, r>>

Init == ReplayInit /\ T = "long" /\ r = <<>>
Type == /\ Is("type") /\ T' = Ev.T /\ r' = [k \in 1..Ev.n |-> QZero]

Got == <<Ev.num, Ev.den>>
Described == /\ Ev.isint = (Ev.den = BOne)
             /\ DClose(Ev.dbl, DMk(Ev.num, 0), DMk(Ev.den, 0), 50)
             /\ Ev.trunc = BQuo(Ev.num, Ev.den)
Result(n, d) == /\ Fit(T, n, d)
                /\ IsQuotient(Got, n, d) /\ Described
                /\ r' = [r EXCEPT ![Ev.k + 1] = Got]
                /\ UNCHANGED T

Make == /\ Is("make") /\ Ev.d # BZero /\ Result(Ev.n, Ev.d)
A == r[Ev.a + 1]
B == r[Ev.b + 1]
Op == /\ Is("op")
      /\ Ev.o = "/" => B[1] # BZero
      /\ Fits(T, Formed(Ev.o, A, B))
      /\ <<Ev.anum, Ev.aden>> = A /\ <<Ev.bnum, Ev.bden>> = B
      /\ Result(Num(Ev.o, A, B), Den(Ev.o, A, B))
OpInt == /\ Is("opi")
         /\ Ev.o = "/" => Ev.i # BZero
         /\ Fits(T, Formed(Ev.o, A, QInt(Ev.i)))
         /\ Result(Num(Ev.o, A, QInt(Ev.i)), Den(Ev.o, A, QInt(Ev.i)))
IntOp == /\ Is("iop")
         /\ Ev.o = "/" => A[1] # BZero
         /\ Fits(T, Formed(Ev.o, QInt(Ev.i), A))
         /\ Result(Num(Ev.o, QInt(Ev.i), A), Den(Ev.o, QInt(Ev.i), A))
Copy == /\ Is("copy") /\ Got = A /\ Described /\ r' = [r EXCEPT ![Ev.k + 1] = A] /\ UNCHANGED T
Simplify == /\ Is("simplify") /\ Got = r[Ev.k + 1] /\ Described /\ Same

Related(c) == /\ Ev.lt = (c < 0) /\ Ev.le = (c <= 0) /\ Ev.eq = (c = 0)
              /\ Ev.ne = (c # 0) /\ Ev.ge = (c >= 0) /\ Ev.gt = (c > 0)
Rel == /\ Is("rel") /\ CrossFits(T, A, B) /\ Related(Cmp(A, B)) /\ Same
RelInt == /\ Is("reli") /\ CrossFits(T, A, QInt(Ev.i)) /\ Related(Cmp(A, QInt(Ev.i))) /\ Same
IntRel == /\ Is("irel") /\ CrossFits(T, QInt(Ev.i), A) /\ Related(Cmp(QInt(Ev.i), A)) /\ Same

ToText == /\ Is("text")
          /\ Ev.s = Text(r[Ev.k + 1]) /\ Ev.same
          /\ Got = r[Ev.k + 1] /\ Ev.equal
          /\ Same
Parse == /\ Is("parse")
         /\ LET p == RationalAt(T, Ev.s, 1)
            IN  IF p[1] THEN /\ Ev.thrown = "no"
                             /\ IsQuotient(Got, p[2], p[3])
                             /\ r' = [r EXCEPT ![Ev.k + 1] = Got]
                ELSE Ev.thrown = "BadParsing" /\ Got = r[Ev.k + 1] /\ UNCHANGED r
         /\ UNCHANGED T
(* extraction of several: after the first failure nothing changes *)
RECURSIVE Extracted(_, _, _)
Extracted(j, from, alive) ==
  IF j > Ev.n THEN TRUE
  ELSE LET p == IF alive THEN RationalAt(T, Ev.s, from) ELSE <<FALSE, BZero, BOne, 0>>
       IN  /\ Ev.ok[j] = (IF p[1] THEN 1 ELSE 0)
           /\ IF p[1] THEN IsQuotient(Ev.got[j], p[2], p[3])
              ELSE Ev.got[j] = r[Ev.k + j]
           /\ Extracted(j + 1, p[4], p[1])
Stream == /\ Is("stream")
          /\ Extracted(1, 1, TRUE)
          /\ r' = [k \in DOMAIN r |-> IF k > Ev.k /\ k <= Ev.k + Ev.n THEN Ev.got[k - Ev.k] ELSE r[k]]
          /\ UNCHANGED T

Next == \/ Advance /\ \/ Type \/ Make \/ Op \/ OpInt \/ IntOp \/ Copy \/ Simplify
                      \/ Rel \/ RelInt \/ IntRel \/ ToText \/ Parse \/ Stream
        \/ Finished /\ Same
=============================================================================
