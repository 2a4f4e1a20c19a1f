INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Calls <- ValidCalls
  Length = 5
  OnlyValid = TRUE
