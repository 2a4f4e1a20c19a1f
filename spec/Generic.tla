------------------------------ MODULE Generic ------------------------------
(***************************************************************************)
(* What the library offers to other people's types: relational operators   *)
(* derived from "<" (C30), and the exceptions it throws at them (C31).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

(* ----------------------- derived relations (C30) ----------------------- *)
(* From ab = (a < b), ba = (b < a) and e, the equality of the user or,     *)
(* without one, of a and b when neither is less.                           *)
Equiv(ab, ba) == ~ab /\ ~ba
Derived(ab, ba, e) == [lt |-> ab, gt |-> ba, eq |-> e, ne |-> ~e, le |-> ~ba, ge |-> ~ab]

(* The classes of the driver: their order on pairs of integers             *)
Lex(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Less(kind, x, y) ==   \* x is of the class
  CASE kind \in {"card", "item", "level", "marklong", "boxlong", "beast", "beastlong"} -> x[1] < y[1]
    [] kind = "levellong" -> x[1] < 2 * y[1]
    [] kind \in {"box", "boxd", "boxs"} -> Lex(x, y)
Greater(kind, x, y) ==   \* y < x
  CASE kind \in {"card", "item", "level", "marklong", "boxlong", "beast", "beastlong"} -> y[1] < x[1]
    [] kind = "levellong" -> 2 * y[1] < x[1]
    [] kind \in {"box", "boxd", "boxs"} -> Lex(y, x)
Equal(kind, x, y) ==
  CASE kind = "item" -> x[1] = y[1] /\ x[2] = y[2]
    [] OTHER -> Equiv(Less(kind, x, y), Greater(kind, x, y))

(* -------------------------- exceptions (C31) --------------------------- *)
None == <<>>
HasPart(s, part) == \E i \in 0..(Len(s) - Len(part)) : SubSeq(s, i + 1, i + Len(part)) = part
=============================================================================
