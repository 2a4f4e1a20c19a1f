INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Most = 6
  Places = {1, 2}
