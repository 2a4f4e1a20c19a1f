INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads <- Th
  Objects <- Ob
  Everyone = "2"
  Steps = 4
