INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRuns = 3
  Lengths <- LengthsQ
  Gaps <- GapsQ
