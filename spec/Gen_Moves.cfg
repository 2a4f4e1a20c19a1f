INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Calls <- QuickCalls
  Length = 4
  OnlyValid = FALSE
