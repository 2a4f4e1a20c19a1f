INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Ways <- Copies
  Before = 2
  After = 1
