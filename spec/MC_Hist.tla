------------------------------ MODULE MC_Hist -------------------------------
(***************************************************************************)
(* Histograms: every short history of measurements, forced measurements,   *)
(* resizes and resets, against the log of the measurements and against     *)
(* the sparse histogram.                                                   *)
(***************************************************************************)
EXTENDS Objects
CONSTANTS MaxBins, MaxSteps
VARIABLES o, log, steps, sp
vars == <<o, log, steps, sp>>
(* the log: <<bin, value, alive>>; a measurement dies with its bin *)
Init == o = Hist("", 0) /\ log = <<>> /\ steps = 0 /\ sp = SparseHist(0)
Step == steps < MaxSteps /\ steps' = steps + 1
Next == /\ Step
        /\ \/ \E i \in 1..MaxBins, x \in {1, -3} :
                /\ \/ i <= Nbins(o) /\ o' = HAdd(o, i, DOf(x))
                   \/ o' = HForce(o, i, DOf(x))
                /\ log' = Append(log, <<i, x, TRUE>>)
                /\ sp' = SparseStep(sp, "force", i - 1, DOf(x))
           \/ \E n \in 0..MaxBins :
                /\ o' = HResize(o, n)
                /\ log' = [j \in DOMAIN log |-> <<log[j][1], log[j][2], log[j][3] /\ log[j][1] <= n>>]
                /\ sp' = SparseStep(sp, "resize", n, DZero)
           \/ o' = Cleared(o) /\ log' = <<>> /\ sp' = SparseStep(sp, "reset", 0, DZero)
Mine(i) == SelectSeq(log, LAMBDA e : e[1] = i /\ e[3])
Total(i) == FoldLeft(LAMBDA acc, e : acc + e[2], 0, Mine(i))
Inv == /\ o.total = Len(log)
       /\ \A i \in DOMAIN o.bins : o.bins[i].n = Len(Mine(i)) /\ DEq(o.bins[i].s, DOf(Total(i)))
       /\ \A j \in DOMAIN log : log[j][3] => log[j][1] <= Nbins(o)
(* the sparse histogram says the same: a bin it lacks is an empty one      *)
Sparse == /\ sp.n = Nbins(o) /\ sp.total = o.total
          /\ \A i \in DOMAIN o.bins : o.bins[i] = SparseBin(sp, i - 1)
          /\ \A i \in DOMAIN sp.b : i < sp.n /\ sp.b[i].n > 0
(* a forced measurement grows the histogram to just include it *)
Grows == [][(Len(log') > Len(log)) => /\ Nbins(o') = (IF log'[Len(log')][1] > Nbins(o) THEN log'[Len(log')][1] ELSE Nbins(o))
                                      /\ \A i \in DOMAIN o.bins : i # log'[Len(log')][1] => o'.bins[i] = o.bins[i]]_vars
=============================================================================
