----------------------------- MODULE MC_Spaces ------------------------------
(***************************************************************************)
(* The linear space as the library keeps it (current value, step) with     *)
(* exact numbers, on every small range: what it delivers is what Utils     *)
(* says, and iterating does not touch the object.                          *)
(***************************************************************************)
EXTENDS Utils
CONSTANTS MaxN, MaxV, MaxSteps
VARIABLES first, last, n, cur, step, out
vars == <<first, last, n, cur, step, out>>
(* values times n, so that all of them are integers *)
Init == /\ first \in -MaxV..MaxV /\ last \in -MaxV..MaxV /\ first < last /\ n \in 1..MaxN
        /\ cur = n * first /\ step = 0 /\ out = <<>>
Value(k) == n * first + k * (last - first)
Next == /\ step < MaxSteps
        /\ step' = step + 1 /\ cur' = Value(step + 1)
        /\ \/ out' = <<"pre", Value(step + 1)>>
           \/ out' = <<"post", cur>>
        /\ UNCHANGED <<first, last, n>>
R == [kind |-> "lin", first |-> DOf(first), last |-> DOf(last), n |-> n, bits |-> 45]
Exactly2(v, k) == \* v / n is the k-th point, and nothing else that is near
  v = n * first + k * (last - first)
Right == Exactly2(cur, step)
(* iterating from begin to end: the values of steps 0 .. n-1, last not reached *)
Points == [i \in 1..n |-> Value(i - 1)]
Excludes == \A i \in 1..n : Points[i] < n * last /\ (i > 1 => Points[i - 1] < Points[i])
Reaches == Value(n) = n * last
(* the judge of observed values accepts the point and refuses its neighbours *)
Judge == \A k \in 0..MaxSteps : \A j \in 0..MaxSteps :
           n \in {1, 2, 4} =>
             PointOf(R, k, LET d == DMk(BI(Value(j)), IF n = 1 THEN 0 ELSE IF n = 2 THEN -1 ELSE -2) IN d) = (j = k)
=============================================================================
