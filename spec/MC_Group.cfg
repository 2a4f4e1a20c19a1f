INIT Init
NEXT Next
INVARIANT Inv
CONSTANTS
  Most = 3
