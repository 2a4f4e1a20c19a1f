INIT Init
NEXT Next
INVARIANTS Inside Right Invariant
PROPERTY Shrinks
CONSTANTS
  MaxLen = 6
  MaxV = 4
  Windows = {1, 2, 3}
