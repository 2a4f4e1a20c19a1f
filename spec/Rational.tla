------------------------------ MODULE Rational ------------------------------
(***************************************************************************)
(* Rational numbers (C11 - C13).  A rational is <<num, den>> of big        *)
(* integers in canonical form: den > 0, no common factor.                  *)
(***************************************************************************)
EXTENDS Big, Integers, Sequences, SequencesExt

Canonical(q) == BSgn(q[2]) > 0 /\ BGcd(q[1], q[2]) = BOne
(* q is the canonical form of n/d *)
IsQuotient(q, n, d) == Canonical(q) /\ BMul(q[1], d) = BMul(n, q[2])
QZero == <<BZero, BOne>>
QInt(i) == <<i, BOne>>

(* the numerator and denominator each operation forms, and what it forms   *)
(* on the way there                                                        *)
Num(o, a, b) == CASE o = "+" -> BAdd(BMul(a[1], b[2]), BMul(b[1], a[2]))
                  [] o = "-" -> BSub(BMul(a[1], b[2]), BMul(b[1], a[2]))
                  [] o = "*" -> BMul(a[1], b[1])
                  [] o = "/" -> BMul(a[1], b[2])
Den(o, a, b) == IF o = "/" THEN BMul(a[2], b[1]) ELSE BMul(a[2], b[2])
Formed(o, a, b) == {Num(o, a, b), Den(o, a, b)} \cup
                   IF o \in {"+", "-"} THEN {BMul(a[1], b[2]), BMul(b[1], a[2])} ELSE {}

MaxOf(T) == IF T = "int" THEN BSub(BTwo(31), BOne) ELSE BSub(BTwo(63), BOne)
MinOf(T) == BNeg(BAdd(MaxOf(T), BOne))
Fits(T, S) == \A x \in S : BLe(MinOf(T), x) /\ BLe(x, MaxOf(T))
(* the canonical form of n/d fits as well: it is the lowest number of the  *)
(* type (as a denominator, or negated) that may have no opposite           *)
Odd(x) == BGcd(x, BI(2)) = BOne
Fit(T, n, d) == /\ Fits(T, {n, d})
                /\ d = MinOf(T) => ~Odd(n)
                /\ n = MinOf(T) /\ BSgn(d) < 0 => ~Odd(d)

Cmp(a, b) == BCmp(BMul(a[1], b[2]), BMul(b[1], a[2]))
CrossFits(T, a, b) == Fits(T, {BMul(a[1], b[2]), BMul(b[1], a[2])})

(* ------------------------------- text ---------------------------------- *)
(* Characters are their codes.                                             *)
Digit(c) == c >= 48 /\ c <= 57
Blank(c) == c \in {9, 10, 11, 12, 13, 32}
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
RECURSIVE Skip(_, _)
Skip(s, i) == IF Blank(At(s, i)) THEN Skip(s, i + 1) ELSE i
RECURSIVE Digits(_, _, _)
Digits(s, i, v) == IF Digit(At(s, i)) THEN Digits(s, i + 1, BAdd(BMul(v, BI(10)), BI(s[i] - 48))) ELSE <<i, v>>
NoParse == <<FALSE, BZero, 0>>
(* an optionally signed decimal integer at i: <<found, value, next>> *)
IntAt(s, i) ==
  LET j == IF At(s, i) \in {43, 45} THEN i + 1 ELSE i
      d == Digits(s, j, BZero)
  IN  IF ~Digit(At(s, j)) THEN NoParse
      ELSE <<TRUE, IF At(s, i) = 45 THEN BNeg(d[2]) ELSE d[2], d[1]>>
(* what a text starts with: <<found, num, den, next>> *)
RationalAt(T, s, from) ==
  LET n == IntAt(s, Skip(s, from))
      d == IntAt(s, n[3] + 2)
  IN  IF n[1] /\ At(s, n[3]) = 47 /\ At(s, n[3] + 1) = 47 /\ d[1] /\ d[2] # BZero /\ Fit(T, n[2], d[2])
      THEN <<TRUE, n[2], d[2], d[3]>> ELSE <<FALSE, BZero, BOne, 0>>
RECURSIVE Decimal(_)
Decimal(x) == IF BSgn(x) = 0 THEN <<48>>
              ELSE IF BSgn(x) < 0 THEN <<45>> \o Decimal(BNeg(x))
              ELSE LET qr == MagDivSmall(x[2], 10)
                   IN  (IF qr[1] = <<>> THEN <<>> ELSE Decimal(<<1, qr[1]>>)) \o <<48 + qr[2]>>
Text(q) == Decimal(q[1]) \o <<47, 47>> \o Decimal(q[2])
=============================================================================
