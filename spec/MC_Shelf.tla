------------------------------ MODULE MC_Shelf ------------------------------
(***************************************************************************)
(* Lattices put aside and fetched: what every place holds, from the whole  *)
(* history alone, is what the step by step account of Trace_Lattice says.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Places, Most
VARIABLES cur, shelf, hist
vars == <<cur, shelf, hist>>
Nothing == 0
Init == cur = 1 /\ shelf = [k \in Places |-> Nothing] /\ hist = <<<<"n", 0>>>>
Add(op, k) == Len(hist) < Most /\ hist' = Append(hist, <<op, k>>)
New == Add("n", 0) /\ cur' = Len(hist) + 1 /\ UNCHANGED shelf
Shelve(k) == Add("s", k) /\ shelf' = [shelf EXCEPT ![k] = cur] /\ UNCHANGED cur
Fetch(k) == shelf[k] # Nothing /\ Add("f", k) /\ cur' = shelf[k] /\ UNCHANGED shelf
Gone(k) == shelf[k] # Nothing /\ Add("g", k) /\ cur' = shelf[k] /\ shelf' = [shelf EXCEPT ![k] = Nothing]
Exchange(k) == shelf[k] # Nothing /\ Add("x", k) /\ cur' = shelf[k] /\ shelf' = [shelf EXCEPT ![k] = cur]
Next == New \/ \E k \in Places : Shelve(k) \/ Fetch(k) \/ Gone(k) \/ Exchange(k)

(* after n steps, place k (-1: the current one) holds the lattice made by  *)
(* the step found going back                                               *)
RECURSIVE Was(_, _)
Was(n, k) == IF n = 0 THEN Nothing
             ELSE LET op == hist[n][1]
                      p == hist[n][2]
                  IN  IF k = -1 THEN IF op = "n" THEN n ELSE IF op = "s" THEN Was(n - 1, -1) ELSE Was(n - 1, p)
                      ELSE IF p # k \/ op \in {"n", "f"} THEN Was(n - 1, k)
                      ELSE IF op = "g" THEN Nothing ELSE Was(n - 1, -1)
Inv == /\ cur = Was(Len(hist), -1) /\ \A k \in Places : shelf[k] = Was(Len(hist), k)
       /\ cur # Nothing
       /\ LET o == hist[Len(hist)][1]
              k == hist[Len(hist)][2]
          IN  /\ o \in {"s", "f"} => shelf[k] = cur
              /\ o = "g" => shelf[k] = Nothing
=============================================================================
