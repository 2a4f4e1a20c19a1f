------------------------------- MODULE Random -------------------------------
(* An engine: its word size, its seed and how many numbers it has given.   *)
EXTENDS Integers, Sequences, TLC
Regs == 0..5
None == [bits |-> 0, seed |-> <<0, <<>>>>, pos |-> 0]
Fresh(bits, seed) == [bits |-> bits, seed |-> seed, pos |-> 0]
Ahead(x, n) == [x EXCEPT !.pos = @ + n]
=============================================================================
