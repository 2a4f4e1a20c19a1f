------------------------------- MODULE Objects -------------------------------
(***************************************************************************)
(* The statistics objects of the library (C14 - C21): the accumulators,    *)
(* histograms, move statistics and observable groups.                      *)
(*                                                                         *)
(* The abstract state of an object is what the values it was given say,    *)
(* exactly: counts, and sums as dyadic numbers without rounding.  What an  *)
(* implementation may report is described by the bounds below.             *)
(*                                                                         *)
(* Next to that every object carries its lineage h, a text that names the  *)
(* operations that made it what it is.  Objects of one lineage must give   *)
(* identical answers: that is what checkpoints and copies are for.         *)
(***************************************************************************)
EXTENDS Big, Integers, Sequences, SequencesExt, TLC

(* ------------------------------- tallies ------------------------------- *)
(* n values, their sum, the sum of their magnitudes                        *)
Tally0 == [n |-> 0, s |-> DZero, a |-> DZero]
TAdd(t, x) == [n |-> t.n + 1, s |-> DAdd(t.s, x), a |-> DAdd(t.a, DAbs(x))]
TAddAll(t, xs) == FoldLeft(LAMBDA acc, x : TAdd(acc, x), t, xs)
TScale(t, m) == [n |-> t.n * m, s |-> DMulI(t.s, m), a |-> DMulI(t.a, m)]
TJoin(t, v) == [n |-> t.n + v.n, s |-> DAdd(t.s, v.s), a |-> DAdd(t.a, v.a)]

(* error bounds: 2^-51 is four rounding units, 2^-106 a squared one        *)
KahanErr(t) == DShl(t.a, -51)
NeumaierErr(t) == DAdd(DShl(DAbs(t.s), -52), DShl(DMulB(t.a, BMul(BI(t.n), BI(t.n))), -105))
Within(d, x, err) == IsFin(d) /\ DLe(DAbs(DSub(d, x)), err)
(* d is sum/m up to the error of the sum and the rounding of the quotient  *)
MeanWithin(d, t, m, err) ==
  /\ IsFin(d)
  /\ DLe(DAbs(DSub(DMulI(d, m), t.s)),
         DAdd(DAdd(err, DShl(DAdd(DAbs(t.s), err), -52)), DMk(BI(m), -1074)))

(* ------------------------------- moments ------------------------------- *)
(* n values of weights w: sum of w, w^2, w x, w x^2, largest |x|, and the   *)
(* least and greatest weight and value                                     *)
Moments0 == [n |-> 0, w |-> DZero, w2 |-> DZero, p |-> DZero, q |-> DZero, mx |-> DZero,
             wl |-> DZero, wh |-> DZero, xl |-> DZero, xh |-> DZero]
MAdd(m, x, w) ==
  IF BSgn(w.m) <= 0 THEN m
  ELSE [n |-> m.n + 1, w |-> DAdd(m.w, w), w2 |-> DAdd(m.w2, DMul(w, w)),
        p |-> DAdd(m.p, DMul(w, x)), q |-> DAdd(m.q, DMul(w, DMul(x, x))), mx |-> DMax(m.mx, DAbs(x)),
        wl |-> IF m.n = 0 \/ DLt(w, m.wl) THEN w ELSE m.wl, wh |-> DMax(m.wh, w),
        xl |-> IF m.n = 0 \/ DLt(x, m.xl) THEN x ELSE m.xl, xh |-> IF m.n = 0 THEN x ELSE DMax(m.xh, x)]
One == DOf(1)
(* w times the sum of weighted squared deviations: w q - p^2               *)
Spread(m) == DSub(DMul(m.w, m.q), DMul(m.p, m.p))
MeanErr(m) == DShl(DMulI(m.mx, m.n), -50)
MomentMean(m, d) == /\ IsFin(d)
                    /\ DLe(DAbs(DSub(DMul(d, m.w), m.p)), DMul(m.w, MeanErr(m)))
MomentSum(m, d) == IsFin(d) /\ DLe(DAbs(DSub(d, m.p)), DShl(DMul(m.w, MeanErr(m)), 1))
(* d, an observed variance times its denominator, is Spread(m) with the    *)
(* accuracy of an updating algorithm: a relative error of n rounding units *)
(* times the ratio of the largest value to the standard deviation, plus    *)
(* second order terms; where the weights are very different the range      *)
(* takes the place of the standard deviation, for a mean that was set by   *)
(* values of small weight can be far off                                   *)
SpreadWithin(m, d) ==
  LET e == DAbs(DSub(d, Spread(m)))
      wm == DMul(m.w, m.mx)
      wq == DMul(wm, wm)
      c2 == DShl(DOf(m.n * m.n), -98)   \* (16 n u)^2
      wr == DMul(m.w, DSub(m.xh, m.xl))
  IN  \/ DLt(DShl(m.wl, 6), m.wh) /\ DLe(DMul(e, e), DShl(DMul(c2, DMul(wq, DMul(wr, wr))), 2))
      \/ DLe(e, DShl(DMul(c2, wq), 2))
      \/ DLe(DMul(e, e), DShl(DMul(c2, DMul(wq, Spread(m))), 2))
Square(d) == DMul(d, d)
IsNan(d) == d.k = "nan"

(* -------------------------- exact integer sums ------------------------- *)
Ints0 == [n |-> 0, s |-> BZero, q |-> BZero]
IAdd(t, x) == [n |-> t.n + 1, s |-> BAdd(t.s, x), q |-> BAdd(t.q, BMul(x, x))]
Long(x) == BLe(x, BSub(BTwo(63), BOne)) /\ BLe(BNeg(BTwo(63)), x)
IFits(t) == Long(t.s) /\ Long(t.q)
ISpread(t) == BSub(BMul(BI(t.n), t.q), BMul(t.s, t.s))

(* ------------------------------- objects ------------------------------- *)
Gone == [c |-> "gone", h |-> ""]
Kahan(h) == [c |-> "kahan", h |-> h, t |-> Tally0]
Neumaier(h) == [c |-> "neumaier", h |-> h, t |-> Tally0]
Welford(h) == [c |-> "welford", h |-> h, m |-> Moments0]
West(h) == [c |-> "west", h |-> h, m |-> Moments0]
Integer(h) == [c |-> "integer", h |-> h, t |-> Ints0]
Hist(h, n) == [c |-> "hist", h |-> h, total |-> 0, bins |-> [i \in 1..n |-> Tally0]]
Moves(h, name) == [c |-> "moves", h |-> h, name |-> name, pend |-> FALSE,
                   prop |-> 0, acc |-> 0, rej |-> 0, imp |-> 0, t |-> Tally0]
Group(h, kind, file, obs) == [c |-> "group", h |-> h, kind |-> kind, file |-> file, obs |-> obs]

Lineage0(o) ==
  CASE o.c = "hist" -> "hist" \o ToString(Len(o.bins))
    [] o.c = "group" -> "group" \o ToString([i \in DOMAIN o.obs |-> o.obs[i].key])
    [] OTHER -> o.c
(* what a fresh object of the same shape would be                          *)
Cleared(o) ==
  CASE o.c \in {"kahan", "neumaier"} -> [o EXCEPT !.t = Tally0]
    [] o.c \in {"welford", "west"} -> [o EXCEPT !.m = Moments0]
    [] o.c = "integer" -> [o EXCEPT !.t = Ints0]
    [] o.c = "hist" -> [o EXCEPT !.total = 0, !.bins = [i \in DOMAIN o.bins |-> Tally0]]
    [] o.c = "moves" -> [o EXCEPT !.pend = FALSE, !.prop = 0, !.acc = 0, !.rej = 0, !.imp = 0, !.t = Tally0]
    [] o.c = "group" -> [o EXCEPT !.obs = [i \in DOMAIN o.obs |-> [o.obs[i] EXCEPT !.t = Tally0]]]
Reset(o) == [Cleared(o) EXCEPT !.h = Lineage0(o)]

(* ------------------------- very long histories ------------------------- *)
(* Counts beyond 2^32: an object whose count is n after only k equal        *)
(* additions, then some more.  Of the sum of what was really added nothing  *)
(* is known but s; what the count must be, and so the mean, is exact.       *)
TopCount == BSub(BTwo(64), BOne)       \* no more values can be counted
Long0(c, k, n) == [c |-> c, n |-> n, base |-> n, more |-> 0, k |-> k]
LongAdd(x) == [x EXCEPT !.n = BAdd(@, BOne), !.more = @ + 1]
LongFull(x) == x.n = TopCount
(* the sum as it is stored: a quarter, a half or two for each addition      *)
LongSum(x) == LET m == DOf(x.k + x.more)
              IN  CASE x.c = "integer" -> DShl(m, 1)
                    [] x.c = "impossible" -> DShl(DOf(x.more), -2)
                    [] OTHER -> DShl(m, -2)
LongCounts(x) == CASE x.c = "hist" -> <<x.n, x.n>> [] x.c \in {"moves", "rejected", "impossible"} -> <<>> [] OTHER -> <<x.n>>
LongClose(d, a, b) == IsFin(d) /\ DLe(DShl(DAbs(DSub(DMulB(d, b), a)), 40), DAdd(DAbs(a), DMk(b, -1000)))
LongValues(x, v) ==
  CASE x.c \in {"kahan", "neumaier"} ->
         Len(v) = 2 /\ DEq(v[1], LongSum(x)) /\ LongClose(v[2], LongSum(x), x.n)
    \* the products of sums and counts are wider than what they are made of
    [] x.c = "integer" ->
         LET m == BI(x.k + x.more)
             d == DMk(BSub(BMul(x.n, BShl(m, 2)), BMul(BShl(m, 1), BShl(m, 1))), 0)
         IN  /\ Len(v) = 5 /\ DEq(v[1], LongSum(x)) /\ LongClose(v[2], LongSum(x), x.n)
             /\ LongClose(v[3], d, BMul(x.n, x.n)) /\ LongClose(v[4], d, BMul(x.n, BSub(x.n, BOne))) /\ LongClose(v[5], d, x.n)
    \* a mean that is carried along
    [] x.c = "welford" -> Len(v) = 2 /\ LongClose(v[1], DMk(x.n, -2), BOne) /\ LongClose(v[2], DShl(One, -2), BOne)
    [] x.c = "west" -> Len(v) = 2 /\ LongClose(v[1], DShl(DOf(x.k + x.more), -1), BOne) /\ LongClose(v[2], DShl(One, -2), BOne)
    [] x.c \in {"hist", "group"} -> Len(v) = 1 /\ LongClose(v[1], LongSum(x), x.n)
    \* all of the first accepted, the others rejected
    [] x.c = "moves" -> /\ Len(v) = 4 /\ LongClose(v[1], DMk(x.base, 0), x.n) /\ LongClose(v[2], DOf(x.more), x.n)
                        /\ DEq(v[3], DZero) /\ LongClose(v[4], LongSum(x), x.n)
    \* all of the first rejected, the others accepted
    [] x.c = "rejected" -> /\ Len(v) = 4 /\ LongClose(v[1], DOf(x.more), x.n) /\ LongClose(v[2], DMk(x.base, 0), x.n)
                           /\ DEq(v[3], DZero) /\ LongClose(v[4], LongSum(x), x.n)
    \* all of the first impossible, the others rejected
    [] x.c = "impossible" -> /\ Len(v) = 4 /\ DEq(v[1], DZero) /\ LongClose(v[2], DOf(x.more), x.n)
                             /\ LongClose(v[3], DMk(x.base, 0), x.n) /\ LongClose(v[4], LongSum(x), x.n)

(* --------------------------- move statistics --------------------------- *)
MayPropose(o) == ~o.pend
MayDecide(o) == o.pend
Proposed(o) == [o EXCEPT !.pend = TRUE, !.prop = @ + 1]
Decided(o, how, p) ==
  LET d == [o EXCEPT !.pend = FALSE, !.t = TAdd(@, IF how = "I" THEN DZero ELSE p)]
  IN  CASE how = "A" -> [d EXCEPT !.acc = @ + 1]
        [] how = "R" -> [d EXCEPT !.rej = @ + 1]
        [] how = "I" -> [d EXCEPT !.imp = @ + 1]
Ratio(d, a, b) == DClose(d, DOf(a), DOf(b), 50)

(* ----------------------------- histograms ------------------------------ *)
Nbins(o) == Len(o.bins)
HAdd(o, i, x) == [o EXCEPT !.total = @ + 1, !.bins[i] = TAdd(@, x)]
HResize(o, n) == [o EXCEPT !.bins = [i \in 1..n |-> IF i <= Len(o.bins) THEN o.bins[i] ELSE Tally0]]
HForce(o, i, x) == HAdd(IF i > Nbins(o) THEN HResize(o, i) ELSE o, i, x)

(* the same with bins that are far apart: only those that are not empty     *)
SparseHist(n) == [n |-> n, total |-> 0, b |-> [i \in {} |-> Tally0]]
SparseBin(s, i) == IF i \in DOMAIN s.b THEN s.b[i] ELSE Tally0
SparseStep(s, what, i, x) ==
  CASE what = "reset" -> [s EXCEPT !.total = 0, !.b = [j \in {} |-> Tally0]]
    [] what = "resize" -> [s EXCEPT !.n = i, !.b = [j \in {j \in DOMAIN s.b : j < i} |-> s.b[j]]]
    [] what \in {"add", "force"} -> [n |-> IF i < s.n THEN s.n ELSE i + 1, total |-> s.total + 1,
                                    b |-> [j \in DOMAIN s.b \cup {i} |-> IF j = i THEN TAdd(SparseBin(s, i), x) ELSE s.b[j]]]

(* -------------------------- observable groups -------------------------- *)
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
(* a key is the sequence of its characters or, in the group of kind "int", *)
(* a sequence with one integer                                             *)
KeyLess(kind, a, b) == IF kind = "int" THEN a[1] < b[1] ELSE LexLess(a, b)
HasKey(o, key) == \E i \in DOMAIN o.obs : o.obs[i].key = key
KeyAt(o, key) == CHOOSE i \in DOMAIN o.obs : o.obs[i].key = key
WithKey(o, key) ==
  IF HasKey(o, key) THEN o
  ELSE LET lo == SelectSeq(o.obs, LAMBDA e : KeyLess(o.kind, e.key, key))
           hi == SelectSeq(o.obs, LAMBDA e : KeyLess(o.kind, key, e.key))
       IN  [o EXCEPT !.obs = lo \o <<[key |-> key, t |-> Tally0]>> \o hi]
WithKeys(o, keys) == FoldLeft(LAMBDA acc, k : WithKey(acc, k), o, keys)
Measured(o, key, x) == [o EXCEPT !.obs[KeyAt(o, key)].t = TAdd(@, x)]

(* text, as character codes *)
RECURSIVE Decimal(_)
Decimal(n) == IF n < 0 THEN <<45>> \o Decimal(-n)
              ELSE IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>
KeyText(kind, key) == IF kind = "int" THEN Decimal(key[1]) ELSE key
CountText == <<67, 111, 117, 110, 116>>
HeaderText(o) == FlattenSeq([i \in DOMAIN o.obs |-> KeyText(o.kind, o.obs[i].key) \o <<44>>]) \o CountText

RECURSIVE SplitAt(_, _, _)
SplitAt(s, i, cur) == IF i > Len(s) THEN <<cur>>
                      ELSE IF s[i] = 44 THEN <<cur>> \o SplitAt(s, i + 1, <<>>)
                      ELSE SplitAt(s, i + 1, Append(cur, s[i]))
Fields(s) == SplitAt(s, 1, <<>>)
IsDigit(c) == c >= 48 /\ c <= 57
AllDigits(s) == s # <<>> /\ \A i \in DOMAIN s : IsDigit(s[i])
Value(s) == FoldLeft(LAMBDA a, c : BAdd(BMul(a, BI(10)), BI(c - 48)), BZero, s)
(* d[.ddd]e(+|-)dd, after an optional sign: [ok, m, frac, x] for m 10^(x-frac) *)
Sci(s0) ==
  LET neg == s0 # <<>> /\ s0[1] = 45
      s == IF neg THEN Tail(s0) ELSE s0
      ie == {i \in DOMAIN s : s[i] = 101}
      e == IF ie = {} THEN 0 ELSE CHOOSE i \in ie : TRUE
      mant == SubSeq(s, 1, e - 1)
      ex == SubSeq(s, e + 2, Len(s))
      frac == IF Len(mant) >= 2 THEN SubSeq(mant, 3, Len(mant)) ELSE <<>>
      good == /\ e # 0 /\ e < Len(s) /\ s[e + 1] \in {43, 45} /\ AllDigits(ex) /\ Len(ex) <= 4
              /\ Len(mant) >= 1 /\ IsDigit(mant[1])
              /\ Len(mant) >= 2 => (mant[2] = 46 /\ AllDigits(frac))
      v == Value(<<mant[1]>> \o frac)
      xv == BToInt(Value(ex))
  IN  IF ~good THEN [ok |-> FALSE, m |-> BZero, frac |-> 0, x |-> 0]
      ELSE [ok |-> TRUE, m |-> IF neg THEN BNeg(v) ELSE v, frac |-> Len(frac), x |-> IF s[e + 1] = 45 THEN -xv ELSE xv]
Ten(n) == BPow(BI(10), n)
(* the printed number is the mean of tally t, rounded to prec digits after *)
(* the point (and up to the error of the sum)                              *)
PrintedMean(field, t, prec) ==
  t.n > 0 =>
    LET f == Sci(field)
        x == f.x - f.frac
        \* times 10^down: everything is then exact
        down == IF x < 0 THEN -x ELSE 0
        v == IF x < 0 THEN DMk(f.m, 0) ELSE DMk(BMul(f.m, Ten(x)), 0)
        unit == IF x < 0 THEN DMk(BOne, 0) ELSE DMk(Ten(x), 0)
        s == DMulB(t.s, Ten(down))
        err == DMulB(DAdd(KahanErr(t), DShl(t.a, -52)), Ten(down))
    IN  /\ f.ok /\ f.frac = prec
        /\ DLe(DAbs(DSub(DMulI(v, t.n), s)), DAdd(DShl(DMulI(unit, t.n), -1), err))
IsRow(o, row, prec) ==
  LET fs == Fields(row)
  IN  /\ Len(fs) = Len(o.obs) + 1
      /\ \A i \in DOMAIN o.obs : PrintedMean(fs[i], o.obs[i].t, prec)
      /\ AllDigits(fs[Len(fs)]) /\ Value(fs[Len(fs)]) = BI(o.obs[1].t.n)
=============================================================================
