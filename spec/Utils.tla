-------------------------------- MODULE Utils --------------------------------
(***************************************************************************)
(* The free-standing utilities (C22 - C27, C29): what each one means.      *)
(***************************************************************************)
EXTENDS Big, Integers, Sequences, SequencesExt, FiniteSets, TLC

LOCAL Fold(f(_, _), e, s) == FoldLeft(f, e, s)

(* ------------------- linear and logarithmic spaces --------------------- *)
(* A space is a range and a step; see Trace_Utils for the registers.       *)
(* range: [kind |-> "lin", first, last, n, bits]                           *)
(*     or [kind |-> "log", first, last, n, bits]                           *)
(*     or [kind |-> "pow", base, start, stop, n, bits]                     *)
(* bits says how close "up to rounding" is for its type of numbers.        *)
RECURSIVE DPow(_, _)
DPow(x, n) == IF n = 0 THEN DOf(1) ELSE IF n % 2 = 1 THEN DMul(x, DPow(x, n - 1))
              ELSE LET h == DPow(x, n \div 2) IN DMul(h, h)
(* the first 18 bits of a positive dyadic number, rounded down *)
RECURSIVE MagBits(_)
MagBits(m) == IF m = <<>> THEN 0
              ELSE 12 * (Len(m) - 1) + LET b[x \in 0..4095] == IF x = 0 THEN 0 ELSE 1 + b[x \div 2] IN b[m[Len(m)]]
Head18(d) == LET b == MagBits(d.m[2]) - 18
                 limbs == b \div 12
             IN  IF b <= 12 THEN d
                 ELSE DMk(<<d.m[1], SubSeq(d.m[2], limbs + 1, Len(d.m[2]))>>, d.e + 12 * limbs)
RelClose(a, b, bits) == DLe(DShl(DAbs(DSub(a, b)), bits), DAbs(b))
(* v^n is a within n times the tolerance: v is the n-th root of a. Long    *)
(* numbers are cut to their leading limbs (at least 18 bits).              *)
Root(v, n, a, b, bits) ==   \* v^n * b ~ a
  /\ IsFin(v) /\ BSgn(v.m) > 0
  /\ IF n <= 16 THEN DLe(DShl(DAbs(DSub(DMul(DPow(v, n), b), a)), bits), DMulI(a, n))
     ELSE LET w == Head18(v)
          IN  \* w <= v <= w (1 + 2^-17)
              /\ DLe(DMul(DMul(DPow(w, n), b), DOf(1)), DMul(a, DAdd(DOf(1), DShl(DOf(n), -10))))
              /\ DLe(a, DMul(DMul(DPow(w, n), b), DAdd(DOf(1), DShl(DOf(n), -10))))
PointOf(r, k, v) ==
  CASE r.kind = "lin" ->
         \* n v ~ (n - k) first + k last
         LET x == DAdd(DMulI(r.first, r.n - k), DMulI(r.last, k))
             size == DMulI(DMax(DAbs(r.first), DAbs(r.last)), r.n + k)
         IN  IsFin(v) /\ DLe(DShl(DAbs(DSub(DMulI(v, r.n), x)), r.bits), size)
    [] r.kind = "log" ->
         IF k <= r.n THEN Root(v, r.n, DMul(DPow(r.first, r.n - k), DPow(r.last, k)), DOf(1), r.bits)
         ELSE Root(v, r.n, DPow(r.last, k), DPow(r.first, k - r.n), r.bits)
    [] r.kind = "pow" ->
         LET e == r.start * r.n + k * (r.stop - r.start)
         IN  IF e >= 0 THEN Root(v, r.n, DPow(r.base, e), DOf(1), r.bits)
             ELSE Root(v, r.n, DOf(1), DPow(r.base, -e), r.bits)

(* ------------------------------ choices -------------------------------- *)
(* counts[i] of N draws fell on index i of the weights: no further from    *)
(* its share than six standard deviations and a bit (of uniform random     *)
(* draws; those of the driver are spread more evenly than that)            *)
Spread(count, w, total, N) ==
  LET d == DSub(DMulI(total, count), DMulI(w, N))
  IN  DLe(DMul(d, d), DMul(total, DAdd(DMulI(w, 36 * N), DMulI(total, 100))))
Proportional(counts, ws, total, N) == \A i \in DOMAIN ws : Spread(counts[i], ws[i], total, N)
NeverZero(counts, ws) == \A i \in DOMAIN ws : BSgn(ws[i].m) = 0 => counts[i] = 0
SumInt(s) == Fold(LAMBDA a, x : a + x, 0, s)

(* ------------------------------- search -------------------------------- *)
(* a sorted range as runs <<value, length>>                                *)
UpperBound(runs, x) == Fold(LAMBDA a, r : IF DLe(r[1], x) THEN a + r[2] ELSE a, 0, runs)
(* the same for lengths beyond 2^31                                        *)
VastUpperBound(runs, x) == Fold(LAMBDA a, r : IF DLe(r[1], x) THEN BAdd(a, r[2]) ELSE a, BZero, runs)
SortedRuns(runs) == \A i \in 1..(Len(runs) - 1) : DLe(runs[i][1], runs[i + 1][1])

(* -------------------------- enums and strings -------------------------- *)
HasName(names, s) == \E i \in DOMAIN names : names[i] = s
IndexOf(names, s) == CHOOSE i \in DOMAIN names : names[i] = s
HasPart(s, part) == \E i \in 0..(Len(s) - Len(part)) : SubSeq(s, i + 1, i + Len(part)) = part

(* ----------------------- approximate comparison ------------------------ *)
Tolerance(a) == DMax(a.abs, DMul(a.rel, DAbs(a.value)))
(* a double holds the number exactly *)
RECURSIVE Twos(_)
Twos(m) == IF m[1] = 0 THEN 12 + Twos(Tail(m)) ELSE LET z[x \in 1..4095] == IF x % 2 = 1 THEN 0 ELSE 1 + z[x \div 2] IN z[m[1]]
Exactly(d) == BSgn(d.m) = 0 \/ LET z == Twos(d.m[2]) IN MagBits(d.m[2]) - z <= 53 /\ d.e + z >= -1074
Distance(a, x) == DAbs(DSub(x, a.value))
(* the answer of == is determined: everything is exact, or it is not close *)
Decided(a, x) ==
  LET d == Distance(a, x)
      tol == Tolerance(a)
  IN  \/ Exactly(d) /\ Exactly(DMul(a.rel, a.value))
      \/ DLt(DMax(DShl(DMax(d, tol), -50), DMk(BOne, -1072)), DAbs(DSub(d, tol)))
ApproxEq(a, x) == DLe(Distance(a, x), Tolerance(a))

(* -------------------------------- files -------------------------------- *)
(* contents as runs <<byte, length>>; merged runs are canonical            *)
Merged(runs) ==
  Fold(LAMBDA acc, r : IF r[2] = 0 THEN acc
                       ELSE IF acc # <<>> /\ acc[Len(acc)][1] = r[1]
                       THEN [acc EXCEPT ![Len(acc)] = <<r[1], @[2] + r[2]>>]
                       ELSE Append(acc, r), <<>>, runs)
SameContents(a, b) == Merged(a) = Merged(b)

(* ------------------------------- helpers ------------------------------- *)
DProd(s) == Fold(LAMBDA a, x : DMul(a, x), DOf(1), s)
DMaxOf(s) == Fold(LAMBDA a, x : DMax(a, x), s[1], s)
DMinOf(s) == Fold(LAMBDA a, x : IF DLt(x, a) THEN x ELSE a, s[1], s)
Square(x) == DMul(x, x)
SumSquares(s) == DSum([i \in DOMAIN s |-> Square(s[i])])
IsGcd(g, a, b) ==
  IF BSgn(a) = 0 /\ BSgn(b) = 0 THEN g = BZero
  ELSE IF BSgn(a) = 0 THEN g = b ELSE IF BSgn(b) = 0 THEN g = a ELSE g = BGcd(a, b)
Binomial(n, k) ==
  IF k > n THEN BZero
  ELSE LET m == IF k > n - k THEN n - k ELSE k
           f[i \in 0..m] == IF i = 0 THEN BOne ELSE BDivSmall(BMul(f[i - 1], BI(n + 1 - i)), i)
       IN  f[m]
=============================================================================
