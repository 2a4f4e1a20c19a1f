----------------------------- MODULE MC_Search ------------------------------
(***************************************************************************)
(* The interpolation-binary search as an algorithm, with a small window    *)
(* instead of 10000, on every short sorted array and every value: it stays *)
(* inside the array, its window shrinks in each round (so it ends), and    *)
(* its answer is the first larger element.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxLen, MaxV, Windows
VARIABLES a, x, W, it, to, count, pc, res
vars == <<a, x, W, it, to, count, pc, res>>
Sorted == {s \in UNION {[1..k -> 0..MaxV] : k \in 1..MaxLen} : \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]}
Init == /\ a \in Sorted /\ x \in -1..(MaxV + 1) /\ W \in Windows
        /\ it = 0 /\ to = Len(a) - 1 /\ count = Len(a) /\ pc = "loop" /\ res = -1
At(i) == a[i + 1]
First(i, j) == i + Cardinality({k \in i..(j - 1) : At(k) <= x})
Binary == pc' = "done" /\ res' = First(it, to + 1) /\ UNCHANGED <<it, to, count>>
(* rounded to the nearest, halves up; an integer division of integers      *)
(* (FALSE) is what the library does for integer elements                   *)
Np(frac) == IF frac THEN (2 * (x - At(it)) * (count - 1) + (At(to) - At(it))) \div (2 * (At(to) - At(it)))
            ELSE ((x - At(it)) \div (At(to) - At(it))) * (count - 1)
Round(frac) ==
  IF ~(count > W) THEN Binary
  ELSE IF x < At(it) THEN pc' = "done" /\ res' = it /\ UNCHANGED <<it, to, count>>
  ELSE IF ~(At(it) < x) THEN Binary
  ELSE IF ~(x < At(to)) THEN pc' = "done" /\ res' = to + 1 /\ UNCHANGED <<it, to, count>>
  ELSE LET nt == it + Np(frac)
       IN  /\ nt \in 0..(Len(a) - 1)
           /\ IF ~(x < At(nt)) THEN it' = nt + 1 /\ to' = to /\ count' = to - nt - 1
              ELSE it' = it /\ to' = nt - 1 /\ count' = nt - 1 - it
           /\ UNCHANGED <<pc, res>>
Next == \/ pc = "loop" /\ (Round(TRUE) \/ Round(FALSE)) /\ UNCHANGED <<a, x, W>>
        \/ pc = "done" /\ UNCHANGED vars
Inside == it \in 0..Len(a) /\ to \in -1..(Len(a) - 1) /\ it <= to + 1
Right == pc = "done" => res = Cardinality({k \in 0..(Len(a) - 1) : At(k) <= x})
(* everything before it is not larger, everything after to is              *)
Invariant == pc = "loop" => (\A k \in 0..(it - 1) : At(k) <= x) /\ (\A k \in (to + 1)..(Len(a) - 1) : At(k) > x)
Shrinks == [][pc = "loop" /\ pc' = "loop" => to' - it' < to - it]_vars
=============================================================================
