INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Calls <- AllCalls
  Length = 5
  OnlyValid = FALSE
