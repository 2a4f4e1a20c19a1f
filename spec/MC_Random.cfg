INIT Init
NEXT Next
INVARIANTS Right SameFuture
CHECK_DEADLOCK FALSE
CONSTANTS
  M = 16
  Seeds = {1, 2, 9}
  Most = 6
