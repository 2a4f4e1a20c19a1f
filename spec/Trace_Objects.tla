--------------------------- MODULE Trace_Objects ---------------------------
(* Executions on registers of statistics objects against Objects (C14-C21) *)
EXTENDS Replay, Objects

VARIABLES o,      \* the objects, by register
          slot,   \* the checkpoints: what each holds
          file,   \* the lines of each output file
          known,  \* the answers seen, by lineage
          mode    \* [track: are lineages compared, checks: overflow checks built in]
vars == <<t, l, o, slot, file, known, mode>>
Rest == UNCHANGED <<slot, file, known, mode>>
Regs == 0..9

Init == /\ ReplayInit /\ o = [k \in Regs |-> Gone] /\ slot = [k \in Regs |-> <<>>]
        /\ file = [k \in Regs |-> <<>>] /\ known = <<>> /\ mode = [track |-> FALSE, checks |-> FALSE]

Begin == /\ Is("begin") /\ mode' = [track |-> Ev.track, checks |-> Ev.checks]
         /\ UNCHANGED <<o, slot, file, known>>

X == o[Ev.k]
Tok(args) == IF mode.track THEN ";" \o Ev.op \o ToString(args) ELSE ""
Put(x) == o' = [o EXCEPT ![Ev.k] = x]
(* an operation that goes on from x with the given arguments              *)
Go(x, args) == Put([x EXCEPT !.h = @ \o Tok(args)]) /\ Rest

New == /\ Is("new")
       /\ Put(CASE Ev.c = "kahan" -> Kahan("kahan")
                [] Ev.c = "neumaier" -> Neumaier("neumaier")
                [] Ev.c = "welford" -> Welford("welford")
                [] Ev.c = "west" -> West("west")
                [] Ev.c = "integer" -> Integer("integer")
                [] Ev.c = "hist" -> Hist("hist" \o ToString(Ev.n), Ev.n)
                [] Ev.c = "moves" -> Moves("moves", Ev.name)
                [] Ev.c = "group" -> LET g == WithKeys(Group("", Ev.kind, Ev.file, <<>>), Ev.keys)
                                     IN  [g EXCEPT !.h = Lineage0(g)])
       /\ Rest

(* ----------------------------- accumulators ---------------------------- *)
AddedTo(x, v) == IF x.c = "welford" THEN [x EXCEPT !.m = MAdd(@, v, One)] ELSE [x EXCEPT !.t = TAdd(@, v)]
Plain == X.c \in {"kahan", "neumaier", "welford"}
Add == /\ Is("add") /\ Plain /\ Ev.thrown = "no"
       /\ Go(AddedTo(X, Ev.x), Ev.x)
(* a range: its elements in order *)
AddRange == /\ Is("range") /\ Plain /\ Ev.same
            /\ Put([FoldLeft(AddedTo, X, Ev.xs)
                    EXCEPT !.h = IF mode.track THEN FoldLeft(LAMBDA h, v : h \o ";add" \o ToString(v), @, Ev.xs) ELSE @])
            /\ Rest
(* a sequence of values, added reps times over *)
AddCycle == /\ Is("cycle") /\ X.c \in {"kahan", "neumaier"}
            /\ Go([X EXCEPT !.t = TJoin(@, TScale(TAddAll(Tally0, Ev.xs), Ev.reps))], <<Ev.reps, Ev.xs>>)
AddWeighted == /\ Is("addw") /\ X.c = "west" /\ Ev.thrown = "no"
               /\ IF BSgn(Ev.w.m) <= 0 THEN UNCHANGED o /\ Rest
                  ELSE Go([X EXCEPT !.m = MAdd(@, Ev.x, Ev.w)], <<Ev.x, Ev.w>>)
AddInteger == /\ Is("addi") /\ X.c = "integer"
              /\ LET y == IAdd(X.t, Ev.x)
                 IN  IF IFits(y) THEN Ev.thrown = "no" /\ Go([X EXCEPT !.t = y], Ev.x)
                     ELSE mode.checks /\ Ev.thrown = "AccumulatorOverflow" /\ UNCHANGED o /\ Rest
(* a very long history, told step by step                                 *)
LongStep(x, s) == IF s.add /\ ~LongFull(x) THEN LongAdd(x) ELSE x
LongSays(x, s, full) ==
  /\ s.thrown = IF s.add /\ full THEN "AccumulatorOverflow" ELSE "no"
  /\ s.n = LongCounts(x) /\ LongValues(x, s.v)
RECURSIVE LongRun(_, _, _)
LongRun(x, steps, i) ==
  IF i > Len(steps) THEN TRUE
  ELSE LET y == LongStep(x, steps[i])
       IN  LongSays(y, steps[i], LongFull(x)) /\ LongRun(y, steps, i + 1)
VeryLong == /\ Is("huge") /\ LongRun(Long0(Ev.c, Ev.k, Ev.n), Ev.steps, 1)
            /\ UNCHANGED o /\ Rest
Clear == /\ Is("reset") /\ Put(Reset(X)) /\ Rest

(* ----------------------------- histograms ------------------------------ *)
HistAdd == /\ Is("hadd") /\ X.c = "hist" /\ Ev.i < Nbins(X)
           /\ Go(HAdd(X, Ev.i + 1, Ev.x), <<Ev.i, Ev.x>>)
HistForce == /\ Is("hforce") /\ X.c = "hist"
             /\ Put([HForce(X, Ev.i + 1, Ev.x) EXCEPT !.h = @ \o (IF mode.track THEN
                   (IF Ev.i < Nbins(X) THEN ";hadd" \o ToString(<<Ev.i, Ev.x>>) ELSE Tok(<<Ev.i, Ev.x>>)) ELSE "")])
             /\ Rest
HistResize == /\ Is("hresize") /\ X.c = "hist" /\ Go(HResize(X, Ev.n), Ev.n)

(* --------------------------- move statistics --------------------------- *)
Refused == Ev.thrown = "MoveInvalidSequence" /\ Ev.named /\ UNCHANGED o /\ Rest
Propose == /\ Is("propose") /\ X.c = "moves"
           /\ IF MayPropose(X) THEN Ev.thrown = "no" /\ Go(Proposed(X), "") ELSE Refused
Decide == /\ Is("decide") /\ X.c = "moves"
          /\ IF MayDecide(X) THEN Ev.thrown = "no" /\ Go(Decided(X, Ev.how, Ev.p), <<Ev.how, Ev.p>>) ELSE Refused
(* a complete result: what a result says it is, and the two calls in one *)
ResultSays == /\ Ev.acc = (Ev.how = "A") /\ Ev.rej = (Ev.how = "R") /\ Ev.imp = (Ev.how = "I")
              /\ Ev.status = Ev.how /\ Ev.prob = Ev.p
Record == /\ Is("record") /\ X.c = "moves" /\ ResultSays
          /\ IF MayPropose(X)
             THEN /\ Ev.thrown = "no"
                  /\ Put([Decided(Proposed(X), Ev.how, Ev.p) EXCEPT !.h =
                          IF mode.track THEN @ \o ";propose" \o ToString("") \o ";decide" \o ToString(<<Ev.how, Ev.p>>) ELSE @])
                  /\ Rest
             ELSE Refused

(* -------------------------- observable groups -------------------------- *)
Measure == /\ Is("measure") /\ X.c = "group"
           /\ IF HasKey(X, Ev.key) THEN Ev.thrown = "no" /\ Go(Measured(X, Ev.key, Ev.x), <<Ev.key, Ev.x>>)
              ELSE Ev.thrown = "yes" /\ UNCHANGED o /\ Rest
AddKeys == /\ Is("addkeys") /\ X.c = "group"
           /\ LET g == WithKeys(X, Ev.keys)
              IN  IF g.obs = X.obs THEN UNCHANGED o /\ Rest ELSE Go(g, Ev.keys)
Headers == /\ Is("headers") /\ X.c = "group" /\ X.obs # <<>>
           /\ Ev.whole /\ Ev.lines = <<HeaderText(X)>>
           /\ file' = [file EXCEPT ![X.file] = Ev.lines]
           /\ UNCHANGED <<o, slot, known, mode>>
PrintRow == /\ Is("print") /\ X.c = "group" /\ X.obs # <<>>
         /\ Ev.whole /\ Len(Ev.lines) = Len(file[X.file]) + 1
         /\ SubSeq(Ev.lines, 1, Len(Ev.lines) - 1) = file[X.file]
         /\ LET row == Ev.lines[Len(Ev.lines)]
                h == X.h \o ToString(Ev.prec)
            IN  /\ IsRow(X, row, Ev.prec)
                /\ IF mode.track THEN /\ h \in DOMAIN known => known[h] = row
                                      /\ known' = (h :> row) @@ known
                   ELSE UNCHANGED known
         /\ file' = [file EXCEPT ![X.file] = Ev.lines]
         /\ Put(Reset(X))
         /\ UNCHANGED <<slot, mode>>
(* nothing the library did changed a file since it was last written       *)
Look == /\ Is("look") /\ Ev.whole /\ Ev.lines = file[Ev.f]
        /\ UNCHANGED o /\ Rest

(* ------------------------------- answers ------------------------------- *)
Answer == Ev.a
KahanSays == /\ Answer.count = X.t.n
             /\ Within(Answer.sum, X.t.s, KahanErr(X.t))
             /\ X.t.n > 0 => MeanWithin(Answer.mean, X.t, X.t.n, KahanErr(X.t))
NeumaierSays == /\ Answer.count = X.t.n
                /\ Within(Answer.sum, X.t.s, NeumaierErr(X.t))
                /\ X.t.n > 0 => MeanWithin(Answer.mean, X.t, X.t.n, NeumaierErr(X.t))
WelfordSays ==
  LET m == X.m
      n == m.n
  IN  /\ Answer.count = n
      /\ IF n = 0 THEN DEq(Answer.sum, DZero)
         ELSE MomentMean(m, Answer.mean) /\ MomentSum(m, Answer.sum)
      /\ IF n < 2 THEN /\ IsNan(Answer.var) /\ IsNan(Answer.cvar) /\ IsNan(Answer.svar) /\ IsNan(Answer.sd)
                       /\ IsNan(Answer.csd) /\ IsNan(Answer.err) /\ IsNan(Answer.cerr)
         ELSE /\ \A d \in {Answer.var, Answer.cvar, Answer.svar, Answer.sd, Answer.csd, Answer.err, Answer.cerr} : IsFin(d)
              /\ SpreadWithin(m, DMulI(Answer.svar, n))
              /\ SpreadWithin(m, DMulI(Answer.var, n * n))
              /\ SpreadWithin(m, DMulI(Answer.cvar, n * (n - 1)))
              /\ SpreadWithin(m, DMulI(Square(Answer.sd), n * n))
              /\ SpreadWithin(m, DMulI(Square(Answer.csd), n * (n - 1)))
              /\ SpreadWithin(m, DMulI(DMulI(Square(Answer.err), n * n), n))
              /\ SpreadWithin(m, DMulI(DMulI(Square(Answer.cerr), n * (n - 1)), n))
              /\ \A d \in {Answer.sd, Answer.csd, Answer.err, Answer.cerr} : BSgn(d.m) >= 0
WestSays ==
  LET m == X.m
      n == m.n
      w22 == DSub(DMul(m.w, m.w), m.w2)
  IN  /\ Answer.count = n
      /\ IF n = 0 THEN DEq(Answer.sum, DZero)
         ELSE MomentMean(m, Answer.mean) /\ MomentSum(m, Answer.sum)
      /\ IF n < 2 THEN IsNan(Answer.pop) /\ IsNan(Answer.freq) /\ IsNan(Answer.rel)
         ELSE /\ IsFin(Answer.pop) /\ SpreadWithin(m, DMul(Answer.pop, DMul(m.w, m.w)))
              \* the other two where their denominators are not about zero
              /\ DLe(DMk(BI(5), -2), m.w) =>
                   IsFin(Answer.freq) /\ SpreadWithin(m, DMul(Answer.freq, DMul(m.w, DSub(m.w, One))))
              \* (and squares of the weights are no underflow)
              /\ DLe(DShl(DMul(m.w, m.w), -4), w22) /\ DLe(DMk(BOne, -960), DMul(m.wh, m.wh)) =>
                   IsFin(Answer.rel) /\ SpreadWithin(m, DMul(Answer.rel, w22))
IntegerSays ==
  LET y == X.t
      n == y.n
      d == DMk(ISpread(y), 0)
  IN  /\ Answer.count = n /\ Answer.sum = y.s
      /\ n > 0 => DClose(Answer.mean, DMk(y.s, 0), DOf(n), 50)
      /\ IF n < 2 THEN IsNan(Answer.var) /\ IsNan(Answer.cvar) /\ IsNan(Answer.svar) /\ IsNan(Answer.sd) /\ IsNan(Answer.csd)
         ELSE /\ DClose(Answer.var, d, DOf(n * n), 48)
              /\ DClose(Answer.cvar, d, DOf(n * (n - 1)), 48)
              /\ DClose(Answer.svar, d, DOf(n), 48)
              /\ IsFin(Answer.sd) /\ IsFin(Answer.csd) /\ BSgn(Answer.sd.m) >= 0 /\ BSgn(Answer.csd.m) >= 0
              /\ DClose(Square(Answer.sd), d, DOf(n * n), 48)
              /\ DClose(Square(Answer.csd), d, DOf(n * (n - 1)), 48)
(* d is a/b up to rounding, relatively *)
Quotient(d, a, b) == IsFin(d) /\ DLe(DAbs(DSub(DMul(d, b), a)), DAdd(DShl(DAbs(a), -51), DMk(BOne, -1000)))
HistSays ==
  LET n == Nbins(X)
  IN  /\ Answer.nbins = n /\ Answer.count = X.total
      /\ Len(Answer.counts) = n /\ Len(Answer.one) = n /\ Answer.all = Answer.one
      /\ \A i \in 1..n :
           /\ Answer.counts[i] = X.bins[i].n
           /\ IF X.bins[i].n = 0 THEN DEq(Answer.one[i], DZero)
              ELSE MeanWithin(Answer.one[i], X.bins[i], X.total, NeumaierErr(X.bins[i]))
      /\ \A r \in DOMAIN Ev.rel :
           LET b == Answer.one[Ev.rel[r].i + 1]
           IN  IF BSgn(b.m) = 0 THEN Len(Ev.rel[r].v) = n /\ \A i \in 1..n : ~IsFin(Ev.rel[r].v[i]) ELSE
                 /\ Len(Ev.rel[r].v) = n
                 /\ \A i \in 1..n : Quotient(Ev.rel[r].v[i], Answer.one[i], b)
(* a histogram with bins that are far apart                               *)
FarSays(s, e) ==
  /\ e.what = "add" => e.i < s.n
  /\ LET y == SparseStep(s, e.what, e.i, e.x)
     IN  /\ e.nbins = y.n /\ e.count = y.total /\ e.same
         /\ {e.bins[j].i : j \in DOMAIN e.bins} = DOMAIN y.b
         /\ \A j \in DOMAIN e.bins :
              LET sb == SparseBin(y, e.bins[j].i)
              IN  e.bins[j].n = sb.n /\ sb.n > 0 /\ MeanWithin(e.bins[j].r, sb, y.total, NeumaierErr(sb))
RECURSIVE FarRun(_, _, _)
FarRun(s, steps, i) ==
  i <= Len(steps) => /\ FarSays(s, steps[i])
                     /\ FarRun(SparseStep(s, steps[i].what, steps[i].i, steps[i].x), steps, i + 1)
FarBins == /\ Is("hfar") /\ FarRun(SparseHist(Ev.n), Ev.steps, 1)
           /\ UNCHANGED o /\ Rest
(* a printed number: four significant digits *)
Shown(d, a, err, b) ==
  IsFin(d) /\ DLe(DAbs(DSub(DMulI(d, b), a)), DAdd(err, DShl(DAbs(a), -10)))
MovesSay ==
  LET p == X.prop
      y == X.t
  IN  /\ Ev.name = X.name /\ Ev.textname
      /\ p = 0 => DEq(Answer.acc, DZero)
      /\ p > 0 => /\ Ratio(Answer.acc, X.acc, p) /\ Ratio(Answer.rej, X.rej, p) /\ Ratio(Answer.imp, X.imp, p)
      /\ y.n > 0 => MeanWithin(Answer.avg, y, y.n, KahanErr(y))
      /\ Len(Answer.text) = 4
      /\ p > 0 => /\ Shown(Answer.text[1], DOf(X.acc), DZero, p)
                  /\ Shown(Answer.text[2], DOf(X.rej), DZero, p)
                  /\ Shown(Answer.text[3], DOf(X.imp), DZero, p)
      /\ y.n > 0 => Shown(Answer.text[4], y.s, DShl(y.a, -40), y.n)
Query == /\ Is("query") /\ X.c # "gone" /\ X.c # "group"
         /\ CASE X.c = "kahan" -> KahanSays
              [] X.c = "neumaier" -> NeumaierSays
              [] X.c = "welford" -> WelfordSays
              [] X.c = "west" -> WestSays
              [] X.c = "integer" -> IntegerSays
              [] X.c = "hist" -> HistSays
              [] X.c = "moves" -> MovesSay
         /\ IF mode.track THEN /\ X.h \in DOMAIN known => known[X.h] = Answer
                               /\ known' = (X.h :> Answer) @@ known
            ELSE UNCHANGED known
         /\ UNCHANGED <<o, slot, file, mode>>

(* --------------------- copies, moves and checkpoints ------------------- *)
Copy == /\ Is("copy")
        /\ o[Ev.from].c # "gone" /\ (Ev.k # Ev.from => Ev.moved \in {TRUE, FALSE})
        /\ o' = IF Ev.moved THEN [o EXCEPT ![Ev.k] = o[Ev.from], ![Ev.from] = Gone]
                ELSE [o EXCEPT ![Ev.k] = o[Ev.from]]
        /\ Rest
Swap == /\ Is("swap") /\ o' = [o EXCEPT ![Ev.k] = o[Ev.j], ![Ev.j] = o[Ev.k]] /\ Rest
Save == /\ Is("save") /\ \A i \in DOMAIN Ev.ks : o[Ev.ks[i]].c # "gone"
        /\ slot' = [slot EXCEPT ![Ev.s] = [i \in DOMAIN Ev.ks |-> o[Ev.ks[i]]]]
        /\ UNCHANGED <<o, file, known, mode>>
(* loading overwrites everything but the name of move statistics          *)
Restored(old, x) == IF x.c = "moves" THEN [x EXCEPT !.name = old] ELSE x
Load == /\ Is("load") /\ Ev.thrown = "no" /\ Len(Ev.ks) = Len(slot[Ev.s])
        /\ o' = [k \in Regs |->
                   IF \E i \in DOMAIN Ev.ks : Ev.ks[i] = k
                   THEN LET i == CHOOSE j \in DOMAIN Ev.ks : Ev.ks[j] = k
                        IN  Restored(IF slot[Ev.s][i].c = "moves" THEN Ev.names[i] ELSE "", slot[Ev.s][i])
                   ELSE o[k]]
        /\ \A i \in DOMAIN Ev.ks : o[Ev.ks[i]].c = "moves" => Ev.names[i] = o[Ev.ks[i]].name
        /\ UNCHANGED <<slot, file, known, mode>>

Next == \/ Advance /\ \/ Begin \/ New \/ Add \/ AddRange \/ AddCycle \/ AddWeighted \/ AddInteger \/ Clear \/ VeryLong
                      \/ HistAdd \/ HistForce \/ HistResize \/ FarBins \/ Propose \/ Decide \/ Record
                      \/ Measure \/ AddKeys \/ Headers \/ PrintRow \/ Look \/ Query \/ Copy \/ Swap \/ Save \/ Load
        \/ Finished /\ UNCHANGED <<o, slot, file, known, mode>>
=============================================================================
