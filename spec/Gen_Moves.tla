----------------------------- MODULE Gen_Moves ------------------------------
(***************************************************************************)
(* Enumerates the histories of calls on move statistics: P propose; A, R,  *)
(* I accept, reject, impossible; a, r, i record a complete result; 0       *)
(* reset; S checkpoint and restore; C copy.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Calls, Length, OnlyValid
AllCalls == {"P", "A", "R", "I", "a", "r", "i", "0", "S", "C"}
QuickCalls == {"P", "A", "R", "I", "r", "0", "S"}
ValidCalls == {"P", "A", "R", "I", "a", "r", "i", "0"}
VARIABLES hist, pend
Init == hist = <<>> /\ pend = FALSE
Next == /\ Len(hist) < Length
        /\ \E c \in Calls :
             /\ hist' = Append(hist, c)
             /\ LET ok == IF c \in {"A", "R", "I"} THEN pend ELSE IF c \in {"P", "a", "r", "i"} THEN ~pend ELSE TRUE
                IN  /\ OnlyValid => ok
                    /\ pend' = IF ~ok THEN pend ELSE IF c = "P" THEN TRUE ELSE IF c \in {"A", "R", "I", "0"} THEN FALSE ELSE pend
Emit == Len(hist) = Length => PrintT(<<"STIM", hist>>)
=============================================================================
