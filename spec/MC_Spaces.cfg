INIT Init
NEXT Next
INVARIANTS Right Excludes Reaches Judge
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxN = 4
  MaxV = 3
  MaxSteps = 6
