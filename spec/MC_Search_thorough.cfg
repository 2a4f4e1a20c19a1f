INIT Init
NEXT Next
INVARIANTS Inside Right Invariant
PROPERTY Shrinks
CONSTANTS
  MaxLen = 8
  MaxV = 6
  Windows = {1, 2, 3, 5}
