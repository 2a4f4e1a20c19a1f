----------------------------- MODULE MC_Helpers -----------------------------
(* The mathematical functions of Utils, on all small arguments, are what   *)
(* they are called.                                                        *)
EXTENDS Utils
CONSTANTS MaxN
VARIABLES a, b
Init == a \in 0..MaxN /\ b \in 0..MaxN
Next == UNCHANGED <<a, b>>
Divides(d, n) == d # 0 /\ n % d = 0
Gcd == IF a = 0 /\ b = 0 THEN 0 ELSE CHOOSE d \in 1..(a + b) : (Divides(d, a) /\ Divides(d, b)) /\ \A e \in (d + 1)..(a + b) : ~(Divides(e, a) /\ Divides(e, b))
GcdRight == \A g \in 0..(a + b) : IsGcd(BI(g), BI(a), BI(b)) = (g = Gcd)
Pascal == b > 0 /\ a > 0 => BToInt(Binomial(a, b)) = BToInt(Binomial(a - 1, b - 1)) + BToInt(Binomial(a - 1, b))
Ends == BToInt(Binomial(a, 0)) = 1 /\ BToInt(Binomial(a, a)) = 1 /\ (b > a => Binomial(a, b) = BZero)
Symmetric == b <= a => Binomial(a, b) = Binomial(a, a - b)
S == <<DOf(a), DOf(-b), DMk(BI(a - b), -1)>>
Extremes == DLe(DMinOf(S), DMaxOf(S)) /\ \A i \in DOMAIN S : DLe(DMinOf(S), S[i]) /\ DLe(S[i], DMaxOf(S))
Squares == DEq(SumSquares(<<DOf(a), DOf(b)>>), DOf(a * a + b * b))
=============================================================================
