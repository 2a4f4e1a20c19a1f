--------------------------- MODULE Trace_Generic ----------------------------
(* Executions of user types against Generic (C30, C31)                     *)
EXTENDS Replay, Generic, Big

VARIABLE ex   \* registers: <<>> or <<[kind, text, d, what]>>
vars == <<t, l, ex>>
Regs == 0..7
Init == ReplayInit /\ ex = [i \in Regs |-> None]

Compare ==
  /\ Is("compare")
  /\ LET ab == Less(Ev.kind, Ev.x, Ev.y)
         ba == Greater(Ev.kind, Ev.x, Ev.y)
         e == Equal(Ev.kind, Ev.x, Ev.y)
         d == Derived(ab, ba, e)
         r == Derived(ba, ab, e)
     IN  /\ Ev.lt = d.lt /\ Ev.gt = d.gt /\ Ev.eq = d.eq /\ Ev.ne = d.ne /\ Ev.le = d.le /\ Ev.ge = d.ge
         /\ Ev.rlt = r.lt /\ Ev.rgt = r.gt /\ Ev.req = r.eq /\ Ev.rne = r.ne /\ Ev.rle = r.le /\ Ev.rge = r.ge
  /\ UNCHANGED ex

(* ------------------------------ messages ------------------------------- *)
IsDigit(c) == c >= 48 /\ c <= 57
(* maximal runs of characters a number can be made of                      *)
NumChar(c) == IsDigit(c) \/ c \in {43, 45, 46, 101}
Field(s, i) == IF (i > 1 /\ NumChar(s[i - 1])) \/ ~NumChar(s[i]) THEN <<>>
               ELSE LET js == {j \in i..Len(s) : \A k \in i..j : NumChar(s[k])}
                    IN  SubSeq(s, i, CHOOSE j \in js : \A k \in js : k <= j)
Position(s, c) == LET is == {i \in DOMAIN s : s[i] = c} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j
Nat10(s) == FoldLeft(LAMBDA a, c : BAdd(BMul(a, BI(10)), BI(c - 48)), BZero, s)
AllDigits(s) == \A i \in DOMAIN s : IsDigit(s[i])
(* [-]ddd[.ddd][e(+|-)dd] is, up to the last digits of a double, d *)
Ten(n) == BPow(BI(10), n)
Reads(s0, d) ==
  LET neg == s0 # <<>> /\ s0[1] = 45
      s == IF neg THEN Tail(s0) ELSE s0
      e == Position(s, 101)
      mant == IF e = 0 THEN s ELSE SubSeq(s, 1, e - 1)
      dot == Position(mant, 46)
      whole == IF dot = 0 THEN mant ELSE SubSeq(mant, 1, dot - 1)
      frac == IF dot = 0 THEN <<>> ELSE SubSeq(mant, dot + 1, Len(mant))
      xs == IF e = 0 THEN <<48>> ELSE SubSeq(s, e + (IF e < Len(s) /\ s[e + 1] \in {43, 45} THEN 2 ELSE 1), Len(s))
      good == whole # <<>> /\ AllDigits(whole) /\ AllDigits(frac) /\ xs # <<>> /\ Len(xs) <= 3 /\ AllDigits(xs)
      xp == BToInt(Nat10(xs))
      x == (IF e # 0 /\ e < Len(s) /\ s[e + 1] = 45 THEN -xp ELSE xp) - Len(frac)
      v == Nat10(whole \o frac)
      m == IF neg THEN BNeg(v) ELSE v
      num == DMk(IF x >= 0 THEN BMul(m, Ten(x)) ELSE m, 0)
      dd == IF x >= 0 THEN d ELSE DMulB(d, Ten(-x))
      least == DMulB(DMk(BOne, -1074), IF x >= 0 THEN BOne ELSE Ten(-x))
  IN  good /\ DLe(DShl(DAbs(DSub(num, dd)), 17), DAdd(DAbs(dd), DShl(least, 17)))   \* at least the usual six digits
Says(s, d) == \E i \in DOMAIN s : Field(s, i) # <<>> /\ Reads(Field(s, i), d)

Names(kind, text, d, what) ==
  CASE kind \in {"move", "sequence", "enum"} -> HasPart(what, text)
    [] kind = "prob" -> IsFin(d) => Says(what, d)
    [] OTHER -> what # <<>>
Fail == /\ Is("fail")
        /\ Ev.what # <<>> /\ Names(Ev.kind, Ev.text, Ev.d, Ev.what)
        /\ (Ev.kind = "enum" => HasPart(Ev.what, <<83, 101, 97, 115, 111, 110>>))
        /\ ex' = [ex EXCEPT ![Ev.k] = <<Ev.what>>]
(* copies, whether made, assigned or caught, say the same, and go on doing *)
(* so when the original is gone                                            *)
Copy == /\ Is("copy") /\ ex[Ev.from] # None
        /\ Ev.what = ex[Ev.from][1]
        /\ ex' = [ex EXCEPT ![Ev.k] = ex[Ev.from]]
Drop == Is("drop") /\ ex' = [ex EXCEPT ![Ev.k] = None]
What == Is("what") /\ ex[Ev.k] # None /\ Ev.what = ex[Ev.k][1] /\ UNCHANGED ex

Next == \/ Advance /\ (Compare \/ Fail \/ Copy \/ Drop \/ What)
        \/ Finished /\ UNCHANGED ex
=============================================================================
