----------------------------- MODULE MC_Approx ------------------------------
(* The comparisons of approximate values, for every small value and tolerance:
   they are consistent with each other and with the order of the numbers.   *)
EXTENDS Utils
CONSTANTS MaxV
VARIABLES v, abs, rel, x
Init == v \in -MaxV..MaxV /\ abs \in 0..2 /\ rel \in 0..3 /\ x \in -MaxV..MaxV
Next == UNCHANGED <<v, abs, rel, x>>
Q(n) == DMk(BI(n), -1)   \* halves
Ap == [value |-> Q(v), abs |-> Q(abs), rel |-> Q(rel)]
Eq == ApproxEq(Ap, Q(x))
Iv(n) == n  \* the definition with integers: 4 |x - v| <= max(4 abs, rel |v| 2)
IAbs(n) == IF n < 0 THEN -n ELSE n
ByHand == 2 * IAbs(x - v) <= 2 * abs \/ 2 * IAbs(x - v) <= rel * IAbs(v)
Same == Eq = ByHand
Decidable == Decided(Ap, Q(x))
Reflexive == x = v => Eq
Trichotomy == Cardinality({p \in {<<1, Eq>>, <<2, x < v /\ ~Eq>>, <<3, x > v /\ ~Eq>>} : p[2]}) = 1
Mirror == ApproxEq(Ap, Q(x)) = ApproxEq([Ap EXCEPT !.value = DNeg(@)], Q(-x))
=============================================================================
