-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Arbitrary precision integers for TLC, whose own integers are 32 bit.    *)
(*                                                                         *)
(* A big integer is <<sign, mag>>: sign is -1, 0 or 1 and mag is its       *)
(* magnitude, a little-endian sequence of limbs in base 4096 without       *)
(* leading zero limbs.  Zero is <<0, <<>>>>.  The representation is        *)
(* canonical, so that = on big integers is equality of values.             *)
(*                                                                         *)
(* A real number observed in the implementation (an IEEE double) is a      *)
(* dyadic number: a record [k |-> "f", m |-> big, e |-> int] which stands  *)
(* for m * 2^e, exactly; k is "nan", "inf" or "ninf" for the other values. *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt

BBase == 4096
BBits == 12

(* ------------------------------ magnitudes ----------------------------- *)
RECURSIVE MagNorm(_)
MagNorm(a) == IF a = <<>> THEN a
              ELSE IF a[Len(a)] # 0 THEN a
              ELSE MagNorm(SubSeq(a, 1, Len(a) - 1))

(* from a sequence of column sums (each in 0 .. 2^31 - 2^20) to limbs *)
RECURSIVE MagPush(_, _)
MagPush(acc, c) == IF c = 0 THEN acc
                   ELSE MagPush(Append(acc, c % BBase), c \div BBase)

MagCarry(cols) ==
  LET r == FoldLeft(LAMBDA st, x :
                      LET v == x + st[2]
                      IN  <<Append(st[1], v % BBase), v \div BBase>>,
                    <<<<>>, 0>>, cols)
  IN  MagNorm(MagPush(r[1], r[2]))

MagOfInt(n) == MagPush(<<>>, n)

MagAt(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

MagAdd(a, b) ==
  IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE
  LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
  IN  MagCarry([i \in 1..n |-> MagAt(a, i) + MagAt(b, i)])

RECURSIVE MagCmpFrom(_, _, _)
MagCmpFrom(a, b, i) == IF i = 0 THEN 0
                       ELSE IF a[i] < b[i] THEN -1
                       ELSE IF a[i] > b[i] THEN 1
                       ELSE MagCmpFrom(a, b, i - 1)

MagCmp(a, b) == IF Len(a) < Len(b) THEN -1
                ELSE IF Len(a) > Len(b) THEN 1
                ELSE MagCmpFrom(a, b, Len(a))

(* a - b, for a >= b (borrows are negative carries: \div and % floor) *)
MagSub(a, b) ==
  IF b = <<>> THEN a ELSE
  LET r == FoldLeft(LAMBDA st, x :
                      LET v == x + st[2]
                      IN  <<Append(st[1], v % BBase), v \div BBase>>,
                    <<<<>>, 0>>,
                    [i \in 1..Len(a) |-> a[i] - MagAt(b, i)])
  IN  MagNorm(r[1])

RECURSIVE MagCol(_, _, _, _, _)
MagCol(a, b, k, i, hi) == IF i > hi THEN 0
                          ELSE a[i] * b[k - i + 1] + MagCol(a, b, k, i + 1, hi)

(* at most 127 limbs in the shorter operand: 127 * 4095^2 < 2^31 - 2^20 *)
MagMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>> ELSE
  IF a = <<1>> THEN b ELSE IF b = <<1>> THEN a ELSE
  LET la == Len(a)
      lb == Len(b)
  IN  MagCarry([k \in 1..(la + lb - 1) |->
                  LET lo == IF k - lb + 1 > 1 THEN k - lb + 1 ELSE 1
                      hi == IF k < la THEN k ELSE la
                  IN  MagCol(a, b, k, lo, hi)])

Pow2Small == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048>>

MagShl(a, k) ==
  IF a = <<>> \/ k = 0 THEN a ELSE
  LET w == k \div BBits
      s == Pow2Small[(k % BBits) + 1]
      h == IF s = 1 THEN a ELSE MagCarry([i \in 1..Len(a) |-> a[i] * s])
  IN  [i \in 1..w |-> 0] \o h

(* quotient and remainder by a small positive integer d < 2^19 *)
MagDivSmall(a, d) ==
  LET r == FoldLeft(LAMBDA st, x :
                      LET v == st[2] * BBase + x
                      IN  <<Append(st[1], v \div d), v % d>>,
                    <<<<>>, 0>>, Reverse(a))
  IN  <<MagNorm(Reverse(r[1])), r[2]>>

(* ------------------------------- integers ------------------------------ *)
BZero == <<0, <<>>>>
BOne  == <<1, <<1>>>>
BI(n) == IF n = 0 THEN BZero
         ELSE IF n > 0 THEN <<1, MagOfInt(n)>>
         ELSE <<-1, MagOfInt(-n)>>
BMk(s, mag) == IF mag = <<>> THEN BZero ELSE <<s, mag>>
BNeg(x) == <<-x[1], x[2]>>
BAbs(x) == IF x[1] < 0 THEN BNeg(x) ELSE x
BSgn(x) == x[1]
BAdd(x, y) ==
  IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x ELSE
  IF x[1] = y[1] THEN <<x[1], MagAdd(x[2], y[2])>>
  ELSE LET c == MagCmp(x[2], y[2])
       IN  IF c = 0 THEN BZero
           ELSE IF c > 0 THEN <<x[1], MagSub(x[2], y[2])>>
           ELSE <<y[1], MagSub(y[2], x[2])>>
BSub(x, y) == BAdd(x, BNeg(y))
BMul(x, y) == IF x[1] = 0 \/ y[1] = 0 THEN BZero
              ELSE <<x[1] * y[1], MagMul(x[2], y[2])>>
BShl(x, k) == IF x[1] = 0 THEN x ELSE <<x[1], MagShl(x[2], k)>>
BCmp(x, y) == IF x[1] < y[1] THEN -1
              ELSE IF x[1] > y[1] THEN 1
              ELSE IF x[1] = 0 THEN 0
              ELSE x[1] * MagCmp(x[2], y[2])
BLt(x, y) == BCmp(x, y) < 0
BLe(x, y) == BCmp(x, y) <= 0
BMax(x, y) == IF BLt(x, y) THEN y ELSE x
BMin(x, y) == IF BLt(x, y) THEN x ELSE y
BSum(seq) == FoldLeft(LAMBDA a, x : BAdd(a, x), BZero, seq)
BProd(seq) == FoldLeft(LAMBDA a, x : BMul(a, x), BOne, seq)
(* truncating division by a small positive native integer *)
BDivSmall(x, d) == BMk(x[1], MagDivSmall(x[2], d)[1])
(* the native integer of a big one that fits *)
BToInt(x) == LET v == FoldLeft(LAMBDA a, d : a * BBase + d, 0, Reverse(x[2]))
             IN  x[1] * v
RECURSIVE BPow(_, _)
BPow(x, n) == IF n = 0 THEN BOne
              ELSE IF n % 2 = 1 THEN BMul(x, BPow(x, n - 1))
              ELSE LET h == BPow(x, n \div 2) IN BMul(h, h)
BTwo(k) == BShl(BOne, k)

(* binary gcd of two positive magnitudes *)
MagEven(a) == a[1] % 2 = 0
MagHalf(a) == MagDivSmall(a, 2)[1]
RECURSIVE MagGcd(_, _)
MagGcd(a, b) ==
  IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE IF a = b THEN a ELSE
  IF a = <<1>> \/ b = <<1>> THEN <<1>> ELSE
  IF MagEven(a) /\ MagEven(b) THEN MagShl(MagGcd(MagHalf(a), MagHalf(b)), 1)
  ELSE IF MagEven(a) THEN MagGcd(MagHalf(a), b)
  ELSE IF MagEven(b) THEN MagGcd(a, MagHalf(b))
  ELSE IF MagCmp(a, b) > 0 THEN MagGcd(MagHalf(MagSub(a, b)), b)
  ELSE MagGcd(a, MagHalf(MagSub(b, a)))
BGcd(x, y) == BMk(1, MagGcd(x[2], y[2]))

(* floor quotient and remainder of x by a positive y: binary long division *)
RECURSIVE MagDivMod(_, _)
MagDivMod(a, b) ==
  IF MagCmp(a, b) < 0 THEN <<<<>>, a>> ELSE
  LET h == MagDivMod(a, MagShl(b, 1))
      c == MagCmp(h[2], b) >= 0
  IN  <<MagAdd(MagShl(h[1], 1), IF c THEN <<1>> ELSE <<>>),
        IF c THEN MagSub(h[2], b) ELSE h[2]>>
BMod(x, y) == LET r == BMk(1, MagDivMod(x[2], y[2])[2])
              IN  IF x[1] < 0 /\ r[1] # 0 THEN BSub(y, r) ELSE r
(* truncating quotient of x by a positive y *)
BQuo(x, y) == BMk(x[1], MagDivMod(x[2], y[2])[1])

(* ------------------------------- dyadics ------------------------------- *)
DOf(n) == [k |-> "f", m |-> BI(n), e |-> 0]
DMk(m, e) == [k |-> "f", m |-> m, e |-> e]
DZero == DOf(0)
IsFin(d) == d.k = "f"
LOCAL MinE(x, y) == IF x.e < y.e THEN x.e ELSE y.e
LOCAL At(x, e) == BShl(x.m, x.e - e)
DAdd(x, y) == IF x.m[1] = 0 THEN y ELSE IF y.m[1] = 0 THEN x ELSE
              LET e == MinE(x, y) IN DMk(BAdd(At(x, e), At(y, e)), e)
DNeg(x) == DMk(BNeg(x.m), x.e)
DSub(x, y) == DAdd(x, DNeg(y))
DMul(x, y) == DMk(BMul(x.m, y.m), x.e + y.e)
DAbs(x) == DMk(BAbs(x.m), x.e)
DCmp(x, y) == IF x.m[1] # y.m[1] \/ x.m[1] = 0 \/ y.m[1] = 0
              THEN (IF x.m[1] < y.m[1] THEN -1 ELSE IF x.m[1] > y.m[1] THEN 1 ELSE 0)
              ELSE LET e == MinE(x, y) IN BCmp(At(x, e), At(y, e))
DLe(x, y) == DCmp(x, y) <= 0
DLt(x, y) == DCmp(x, y) < 0
DEq(x, y) == DCmp(x, y) = 0
DMax(x, y) == IF DLt(x, y) THEN y ELSE x
DMulI(x, n) == DMk(BMul(x.m, BI(n)), x.e)
DMulB(x, b) == DMk(BMul(x.m, b), x.e)
DShl(x, k) == IF x.m[1] = 0 THEN x ELSE DMk(x.m, x.e + k)
DSum(seq) == FoldLeft(LAMBDA a, x : DAdd(a, x), DZero, seq)

(* |d - p/q| <= 2^-s * max(1, |p/q|), for dyadics p and q > 0: an observed *)
(* double d agrees with the exact value p/q up to rounding                 *)
DClose(d, p, q, s) ==
  /\ IsFin(d)
  /\ DLe(DShl(DAbs(DSub(DMul(d, q), p)), s), DMax(q, DAbs(p)))
DNear(d, p, s) == DClose(d, p, DOf(1), s)
=============================================================================
