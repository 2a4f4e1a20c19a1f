----------------------------- MODULE Gen_Spaces -----------------------------
(* Every short history of operations on two registers of a space           *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Most
VARIABLE hist
Ops == {"pre 0", "post 0", "call 0", "collect 0", "iterate 0", "copy 1 0", "begin 1 0", "end 1 0", "pre 1", "iterate 1", "collect 1", "copy 0 1", "keeppost 1 0", "keeppre 1 0", "keeptwice 1 0"}
Init == hist = <<>>
Next == Len(hist) < Most /\ \E o \in Ops : hist' = Append(hist, o)
Emit == Len(hist) = Most => PrintT(<<"STIM", hist>>)
=============================================================================
