------------------------------ MODULE MC_Files ------------------------------
(***************************************************************************)
(* Comparing two files by length and then byte by byte through a buffer,   *)
(* for all short contents: it ends with equality of the contents, and      *)
(* equality of merged runs is equality of contents.                        *)
(***************************************************************************)
EXTENDS Utils
CONSTANTS MaxLen, Bytes, Buffer
VARIABLES a, b, pos, res
vars == <<a, b, pos, res>>
Contents == UNION {[1..k -> Bytes] : k \in 0..MaxLen}
Init == a \in Contents /\ b \in Contents /\ pos = 0 /\ res = "?"
Next == \/ /\ res = "?"
           /\ IF Len(a) # Len(b) THEN res' = "no" /\ pos' = pos
              ELSE IF pos >= Len(a) THEN res' = "yes" /\ pos' = pos
              ELSE LET e == IF pos + Buffer > Len(a) THEN Len(a) ELSE pos + Buffer
                   IN  IF SubSeq(a, pos + 1, e) = SubSeq(b, pos + 1, e) THEN pos' = e /\ res' = "?" ELSE res' = "no" /\ pos' = pos
           /\ UNCHANGED <<a, b>>
        \/ res # "?" /\ UNCHANGED vars
Right == res # "?" => (res = "yes") = (a = b)
Runs(s) == [i \in DOMAIN s |-> <<s[i], 1>>]
Canonical == SameContents(Runs(a), Runs(b)) = (a = b)
=============================================================================
