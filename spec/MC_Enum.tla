------------------------------ MODULE MC_Enum -------------------------------
(* Every enumeration of a few short names, prefixes of each other included:
   looking names up in order is the inverse of naming.                      *)
EXTENDS Utils
CONSTANTS Letters, MaxNames
VARIABLES names, s
Words == UNION {[1..k -> Letters] : k \in 1..2}
Init == /\ names \in {n \in UNION {[1..k -> Words] : k \in 1..MaxNames} : \A i, j \in DOMAIN n : i # j => n[i] # n[j]}
        /\ s \in UNION {[1..k -> Letters] : k \in 0..3}
Next == UNCHANGED <<names, s>>
(* the chain of comparisons: the first that matches *)
RECURSIVE Chain(_)
Chain(i) == IF i > Len(names) THEN 0 ELSE IF s = names[i] THEN i ELSE Chain(i + 1)
Agrees == IF HasName(names, s) THEN Chain(1) = IndexOf(names, s) ELSE Chain(1) = 0
Back == Chain(1) # 0 => names[Chain(1)] = s
Forth == \A i \in DOMAIN names : IndexOf(names, names[i]) = i
=============================================================================
