----------------------------- MODULE Trace_Utils ----------------------------
(* Executions of the utilities against Utils (C22 - C27, C29)              *)
EXTENDS Replay, Utils

VARIABLES sp,    \* registers of spaces: [r |-> range, k |-> step]
          en,    \* the enumeration in use: [name, names]
          file   \* contents of the files, <<>> or <<runs, hole>>
vars == <<t, l, sp, en, file>>
Regs == 0..7
NoSpace == [r |-> [kind |-> "none"], k |-> 0]
Init == /\ ReplayInit /\ sp = [i \in Regs |-> NoSpace] /\ en = [name |-> <<>>, names |-> <<>>]
        /\ file = [i \in Regs |-> <<>>]
Same == UNCHANGED <<sp, en, file>>

(* ------------------------------- spaces -------------------------------- *)
S == sp[Ev.k]
NewSpace == /\ Is("space")
            /\ sp' = [sp EXCEPT ![Ev.k] = [r |-> Ev.r, k |-> 0]]
            /\ PointOf(Ev.r, 0, Ev.v)
            /\ UNCHANGED <<en, file>>
At(k, v) == PointOf(S.r, k, v)
Step == /\ Is("step")
        /\ CASE Ev.how = "pre" -> At(S.k + 1, Ev.v)
             [] Ev.how = "post" -> At(S.k, Ev.v)
             [] Ev.how = "call" -> At(S.k, Ev.v)
        /\ At(S.k + 1, Ev.now)
        /\ sp' = [sp EXCEPT ![Ev.k].k = @ + 1]
        /\ UNCHANGED <<en, file>>
(* an increment whose result, a space, is kept                             *)
Keep == /\ Is("keep") /\ Ev.to # Ev.k
        /\ LET by == IF Ev.how = "twice" THEN 2 ELSE 1
               at == IF Ev.how = "post" THEN S.k ELSE S.k + by
           IN  /\ At(at, Ev.v) /\ At(S.k + by, Ev.now)
               /\ sp' = [sp EXCEPT ![Ev.k].k = @ + by, ![Ev.to] = [r |-> S.r, k |-> at]]
        /\ UNCHANGED <<en, file>>
Steps == /\ Is("steps")  \* n times
         /\ At(S.k + Ev.n, Ev.now)
         /\ sp' = [sp EXCEPT ![Ev.k].k = @ + Ev.n]
         /\ UNCHANGED <<en, file>>
Look == /\ Is("look") /\ At(S.k, Ev.v) /\ Same
Collect == /\ Is("collect") /\ Len(Ev.vs) = Ev.n
           /\ \A i \in 1..Ev.n : At(S.k + i - 1, Ev.vs[i])
           /\ At(S.k, Ev.now) /\ Same
Iterate == /\ Is("iterate") /\ Len(Ev.vs) = S.r.n
           /\ \A i \in 1..S.r.n : PointOf(S.r, i - 1, Ev.vs[i])
           /\ At(S.k, Ev.now) /\ Same
CopySpace == /\ Is("copyspace") /\ sp' = [sp EXCEPT ![Ev.k] = sp[Ev.from]] /\ UNCHANGED <<en, file>>
(* a register becomes the beginning or the end of its own range            *)
Ends == /\ Is("ends")
        /\ LET k == IF Ev.how = "begin" THEN 0 ELSE S.r.n
           IN  At(k, Ev.v) /\ sp' = [sp EXCEPT ![Ev.to] = [r |-> S.r, k |-> k]]
        /\ UNCHANGED <<en, file>>
CompareSpaces == /\ Is("samestep") /\ sp[Ev.j].r = S.r
                 /\ Ev.eq = (S.k = sp[Ev.j].k) /\ Ev.ne = (S.k # sp[Ev.j].k) /\ Same

(* ------------------------------- choices ------------------------------- *)
Choose == /\ Is("choose")
          /\ Ev.unchanged /\ Ev.agree
          /\ LET total == DSum(Ev.ws)
             IN  /\ BSgn(total.m) > 0
                 /\ Len(Ev.counts) = Len(Ev.ws) /\ Ev.outside = 0
                 /\ SumInt(Ev.counts) = Ev.n
                 /\ NeverZero(Ev.counts, Ev.ws)
                 /\ Proportional(Ev.counts, Ev.ws, total, Ev.n)
                 /\ NeverZero(Ev.edge, Ev.ws) /\ SumInt(Ev.edge) = Ev.edges
          /\ Same
Chance == /\ Is("chance")
          /\ Spread(Ev.yes, Ev.p, DOf(1), Ev.n) /\ Spread(Ev.n - Ev.yes, DSub(DOf(1), Ev.p), DOf(1), Ev.n)
          /\ BSgn(Ev.p.m) = 0 => Ev.yes = 0 /\ Ev.edge = 0
          /\ DEq(Ev.p, DOf(1)) => Ev.yes = Ev.n /\ Ev.edge = Ev.edges
          /\ Same

(* -------------------------------- search ------------------------------- *)
Search == /\ Is("search") /\ SortedRuns(Ev.runs)
          /\ Len(Ev.got) = Len(Ev.xs)
          /\ \A i \in DOMAIN Ev.xs : Ev.got[i] = UpperBound(Ev.runs, Ev.xs[i])
          /\ Same
Stairs == /\ Is("stairs") /\ SortedRuns(Ev.runs)
          /\ Len(Ev.got) = Len(Ev.xs) /\ Ev.outside = 0
          /\ \A i \in DOMAIN Ev.xs : Ev.got[i] = VastUpperBound(Ev.runs, Ev.xs[i])
          /\ Same

(* -------------------------------- enums -------------------------------- *)
NewEnum == /\ Is("enum") /\ en' = [name |-> Ev.name, names |-> Ev.names] /\ UNCHANGED <<sp, file>>
EnumText == /\ Is("tostring")
            /\ IF Ev.i < Len(en.names) THEN Ev.s = en.names[Ev.i + 1]
               ELSE HasPart(Ev.s, en.name) /\ ~HasName(en.names, Ev.s)
            /\ Same
Has0(s) == \E i \in DOMAIN s : s[i] = 0
EnumRead == /\ Is("fromstring")
            /\ IF HasName(en.names, Ev.s) THEN Ev.thrown = "no" /\ Ev.now = IndexOf(en.names, Ev.s) - 1
               ELSE /\ Ev.thrown = "conversion" /\ Ev.now = Ev.was
                    \* (a message is a C string: it ends at a null character)
                    /\ ~Has0(Ev.s) => HasPart(Ev.what, Ev.s) /\ HasPart(Ev.what, en.name)
            /\ Same

(* -------------------------------- approx ------------------------------- *)
Approx == /\ Is("approx")
          /\ Ev.same
          /\ LET a == [value |-> Ev.value, abs |-> DAbs(Ev.abs), rel |-> DAbs(Ev.rel)]
                 c == DCmp(Ev.x, Ev.value)
                 e == Ev.xeq
                 less == c < 0
                 more == c > 0
             IN  /\ Decided(a, Ev.x) => e = ApproxEq(a, Ev.x)
                 /\ Ev.aeq = e /\ Ev.xne = ~e /\ Ev.ane = ~e
                 /\ Ev.xle = (less \/ e) /\ Ev.xge = (more \/ e)
                 /\ Ev.xlt = (less /\ ~e) /\ Ev.xgt = (more /\ ~e)
                 \* the approximate value on the left
                 /\ Ev.ale = (more \/ e) /\ Ev.age = (less \/ e)
                 /\ Ev.alt = (more /\ ~e) /\ Ev.agt = (less /\ ~e)
          /\ Same

(* -------------------------------- files -------------------------------- *)
Write == /\ Is("write") /\ file' = [file EXCEPT ![Ev.f] = <<Merged(Ev.runs), 0>>] /\ UNCHANGED <<sp, en>>
(* so many MiB of zeros at the end; unique as the runs end in fewer          *)
Mebi == 1048576
Extend == /\ Is("extend") /\ file[Ev.f] # <<>>
          /\ LET c == file[Ev.f][1] IN c # <<>> => c[Len(c)][1] # 0 \/ c[Len(c)][2] < Mebi
          /\ file' = [file EXCEPT ![Ev.f][2] = @ + Ev.hole]
          /\ UNCHANGED <<sp, en>>
Length(f) == IF f = <<>> THEN BI(-1)
             ELSE BAdd(BI(SumInt([i \in DOMAIN f[1] |-> f[1][i][2]])), BMul(BI(f[2]), BI(Mebi)))
RemoveFile == /\ Is("remove") /\ file' = [file EXCEPT ![Ev.f] = <<>>] /\ UNCHANGED <<sp, en>>
CompareFiles == /\ Is("compare")
                /\ LET a == file[Ev.a]
                       b == file[Ev.b]
                       e == a # <<>> /\ b # <<>> /\ a = b
                   IN  /\ Ev.ab = e /\ Ev.ba = e
                       \* neither file is changed (or made)
                       /\ Ev.lena = Length(a)
                       /\ Ev.lenb = Length(b)
                       /\ Ev.unchanged
                /\ Same

(* ------------------------------- helpers ------------------------------- *)
X == Ev.x
R == Ev.r
IsVal(x) == IsFin(R) /\ DEq(R, x)
(* exact (bits = 0), or up to so many bits of the size of its terms        *)
Val(x, size) == IF Ev.bits = 0 THEN IsVal(x)
                ELSE IsFin(R) /\ DLe(DShl(DAbs(DSub(R, x)), Ev.bits), size)
DOfBig(b) == DMk(b, 0)
Abs1(i) == IF i < 0 THEN -i ELSE i
Vec(xs) == Len(R) = Len(xs) /\ \A i \in DOMAIN xs : IsFin(R[i]) /\ DEq(R[i], xs[i])
Helper ==
  /\ Is("fn")
  /\ LET n == Ev.name IN
     CASE n = "square" -> LET v == DMul(X[1], X[1]) IN Val(v, v)
       [] n = "cube" -> LET v == DMul(X[1], DMul(X[1], X[1])) IN Val(v, DAbs(v))
       [] n = "product" -> LET v == DProd(X) IN Val(v, DAbs(v))
       [] n = "sum" -> Val(DSum(X), DSum([i \in DOMAIN X |-> DAbs(X[i])]))
       [] n = "max" -> IsVal(DMaxOf(X))
       [] n = "min" -> IsVal(DMinOf(X))
       [] n \in {"sumsq", "dsumsq"} -> LET v == SumSquares(X) IN Val(v, v)
       [] n = "norm" -> LET v == SumSquares(X)
                        IN  IsFin(R) /\ BSgn(R.m) >= 0
                            /\ DLe(DShl(DAbs(DSub(Square(R), v)), Ev.bits), v)
       [] n = "sgn" -> IsVal(DOf(BSgn(X[1].m)))
       [] n = "absdiff" -> LET v == DAbs(DSub(X[1], X[2])) IN Val(v, v)
       [] n = "signeddiff" -> IsVal(DSub(X[1], X[2]))
       [] n = "heaviside" -> IsVal(IF BSgn(X[1].m) >= 0 THEN DOf(1) ELSE DZero)
       [] n = "heaviside2" -> IsVal(IF BSgn(X[1].m) > 0 THEN DOf(1) ELSE IF BSgn(X[1].m) = 0 THEN DMk(BOne, -1) ELSE DZero)
       [] n = "lerp" -> LET u == DSub(DOf(1), X[3])
                        IN  CASE BSgn(X[3].m) = 0 -> IsVal(X[1])   \* exact at the ends
                              [] BSgn(u.m) = 0    -> IsVal(X[2])
                              [] OTHER -> Val(DAdd(DMul(u, X[1]), DMul(X[3], X[2])),
                                              DAdd(DAbs(DMul(DAdd(DOf(1), DAbs(X[3])), X[1])), DAbs(DMul(X[3], X[2]))))
       [] n = "gcd" -> IsFin(R) /\ R.e = 0 /\ IsGcd(R.m, X[1].m, X[2].m)
       [] n = "binomial" -> IsFin(R) /\ DClose(R, DOfBig(Binomial(Ev.n, Ev.k)), DOf(1), 52)
       [] n = "lerpi" /\ Ev.i = 0 -> IsVal(X[1])
       [] n = "lerpi" /\ Ev.i = Ev.j -> IsVal(X[2])
       [] n = "lerpi" -> \* t = i / j: j r = (j - i) a + i b
            IsFin(R) /\ DLe(DShl(DAbs(DSub(DMulI(R, Ev.j), DAdd(DMulI(X[1], Ev.j - Ev.i), DMulI(X[2], Ev.i)))), Ev.bits),
                            DAdd(DMulI(DAbs(X[1]), Abs1(Ev.j) + Abs1(Ev.i)), DMulI(DAbs(X[2]), Abs1(Ev.i))))
  /\ Same
VecHelper ==
  /\ Is("vec")
  /\ CASE Ev.name = "sum_self" -> Vec([i \in DOMAIN X |-> DAdd(X[i], X[i])])
       [] Ev.name = "sum_into" -> Vec([i \in DOMAIN X |-> DAdd(X[i], Ev.y[i])])
       [] Ev.name = "subtract_into" -> Vec([i \in DOMAIN X |-> DSub(X[i], Ev.y[i])])
       [] Ev.name \in {"invert", "get_inverted"} -> Vec([i \in DOMAIN X |-> DNeg(X[i])])
  \* in place: the object itself is returned, otherwise it is as it was
  /\ Ev.same = (Ev.name # "get_inverted")
  /\ Ev.left = (IF Ev.name = "get_inverted" THEN X ELSE R)
  /\ Ev.right
  /\ Same

Next == \/ Advance /\ \/ NewSpace \/ Step \/ Keep \/ Steps \/ Look \/ Collect \/ Iterate \/ CopySpace \/ Ends \/ CompareSpaces
                      \/ Choose \/ Chance \/ Search \/ Stairs \/ NewEnum \/ EnumText \/ EnumRead \/ Approx
                      \/ Write \/ Extend \/ RemoveFile \/ CompareFiles \/ Helper \/ VecHelper
        \/ Finished /\ Same
=============================================================================
