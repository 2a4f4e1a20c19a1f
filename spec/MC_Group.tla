------------------------------ MODULE MC_Group ------------------------------
(***************************************************************************)
(* Observable groups: keys stay sorted and unique however they are added,  *)
(* measurements reach their key only, and the text of a row is read back   *)
(* as the numbers it stands for.                                           *)
(***************************************************************************)
EXTENDS Objects, FiniteSets
CONSTANTS Most
VARIABLES g, added, got
vars == <<g, added, got>>
Keys == {<<65>>, <<65, 66>>, <<66>>, <<>>, <<97>>}
Init == g = Group("", "string", 0, <<>>) /\ added = {} /\ got = <<>>
Next ==
  \/ \E k \in Keys : g' = WithKey(g, k) /\ added' = added \cup {k} /\ UNCHANGED got
  \/ \E k \in Keys : /\ HasKey(g, k) /\ Len(got) < Most
                     /\ g' = Measured(g, k, DOf(Len(got) + 1)) /\ got' = Append(got, k) /\ UNCHANGED added
  \/ g' = Cleared(g) /\ got' = <<>> /\ UNCHANGED added
Sorted == \A i, j \in DOMAIN g.obs : i < j => KeyLess("string", g.obs[i].key, g.obs[j].key)
Holds == {g.obs[i].key : i \in DOMAIN g.obs} = added
Tallies == \A i \in DOMAIN g.obs :
             LET mine == {j \in DOMAIN got : got[j] = g.obs[i].key}
             IN  /\ g.obs[i].t.n = Cardinality(mine)
                 /\ DEq(g.obs[i].t.s, DOf(LET f[j \in 0..Len(got)] == IF j = 0 THEN 0 ELSE f[j - 1] + (IF j \in mine THEN j ELSE 0)
                                          IN  f[Len(got)]))
(* text: d.dd e+-xx *)
Text(m, x) == Decimal(m \div 100) \o <<46>> \o Decimal((m \div 10) % 10) \o Decimal(m % 10) \o <<101>> \o
              (IF x < 0 THEN <<45>> ELSE <<43>>) \o (IF x \in -9..9 THEN <<48>> ELSE <<>>) \o Decimal(IF x < 0 THEN -x ELSE x)
Tally(n, s) == [n |-> n, s |-> s, a |-> DAbs(s)]
Reading ==
  \A m \in {100, 250, 999}, x \in {-3, 0, 2} :
    LET f == Sci(Text(m, x))
        s == IF x >= 2 THEN DMulI(DOf(m), 1) ELSE DOf(m)
    IN  /\ f.ok /\ f.m = BI(m) /\ f.frac = 2 /\ f.x = x
        /\ x = 2 => /\ PrintedMean(Text(m, x), Tally(1, DOf(m)), 2)
                    /\ ~PrintedMean(Text(m, x), Tally(1, DOf(m)), 3)
                    /\ ~PrintedMean(Text(m, x), Tally(1, DOf(m + 1)), 2)
                    /\ PrintedMean(Text(m, x), Tally(3, DOf(3 * m + 1)), 2)
                    /\ ~PrintedMean(Text(m, x), Tally(3, DOf(3 * m + 2)), 2)
        /\ x = 0 => /\ PrintedMean(Text(m, x), Tally(100, DOf(m)), 2)
                    /\ ~PrintedMean(Text(m, x), Tally(100, DOf(m + 1)), 2)
        /\ Fields(Text(m, x) \o <<44>> \o Decimal(m)) = <<Text(m, x), Decimal(m)>>
Inv == Sorted /\ Holds /\ Tallies
ASSUME Reading
=============================================================================
