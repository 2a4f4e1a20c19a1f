---------------------------- MODULE Gen_Rational ----------------------------
(***************************************************************************)
(* Enumerates short calculations: two numbers, written with any signs and  *)
(* common factors, combined by one operation, the result combined with the *)
(* first number again, and compared.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Nums, Dens
VARIABLE hist
NumsQuick == {-6, -3, 0, 2, 4}
DensQuick == {-4, -1, 2, 6}
NumsThorough == {-6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 9}
DensThorough == {-6, -4, -3, -1, 1, 2, 3, 6}


S(x) == ToString(x)
Init == hist = <<>>
Mk(k, n, d) == "make " \o S(k) \o " " \o S(n) \o " " \o S(d)
Safe(o, n) == o # "/" \/ n # 0
Next ==
  \/ /\ hist = <<>>
     /\ \E n, m \in Nums, d, e \in Dens, o \in {"+", "-", "*", "/"} :
          /\ Safe(o, m)
          /\ hist' = <<"type long 3", Mk(0, n, d), Mk(1, m, e), "op 2 " \o o \o " 0 1", "rel 0 1", "rel 2 0", "rel 0 2", "text 2",
                       "opi 2 " \o o \o " 0 " \o S(IF m = 0 THEN 1 ELSE m), "reli 0 " \o S(m), "reli 2 " \o S(n)>>
                    \o (IF Safe(o, n) THEN <<"iop 2 " \o o \o " 0 " \o S(m), "rel 2 1", "reli 2 " \o S(m)>> ELSE <<>>)
Emit == hist # <<>> => PrintT(<<"STIM", hist>>)
=============================================================================
