INIT Init
NEXT Next
INVARIANTS InRange NotZero Exact Judge
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxW = 3
  MaxLen = 4
  Fine = 2
