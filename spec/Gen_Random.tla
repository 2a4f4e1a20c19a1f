----------------------------- MODULE Gen_Random -----------------------------
(* Every short history of draws, saves and loads of two engines            *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Most
VARIABLE hist
Ops == {"draw 0", "draw 1", "save 0", "load 0", "load 1", "copy 1 0"}
Saved == \E i \in DOMAIN hist : hist[i] = "save 0"
Init == hist = <<>>
Next == Len(hist) < Most /\ \E o \in Ops : (o \in {"load 0", "load 1"} => Saved) /\ hist' = Append(hist, o)
Emit == Len(hist) = Most => PrintT(<<"STIM", hist>>)
=============================================================================
