------------------------------ MODULE Gen_Files -----------------------------
(* Every pair of contents of a few runs, and missing files                 *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Lens
VARIABLE hist
LensQ == {"0", "1", "4096"}
Bs == {"0", "10", "255"}
Content == {<<>>} \cup {<<x, n>> : x \in Bs, n \in Lens} \cup {<<x, n, y, m>> : x \in {"0", "255"}, y \in {"0", "10"}, n \in Lens, m \in Lens}
Init == hist = <<>>
Next == hist = <<>> /\ \E a \in Content, b \in Content : hist' = a \o <<"|">> \o b
Emit == hist # <<>> => PrintT(<<"STIM", hist>>)
=============================================================================
