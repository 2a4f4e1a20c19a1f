INIT Init
NEXT Next
INVARIANT Inv
CONSTANTS
  Vals <- ValsSmall
  Weights <- WeightsSmall
  Most = 4
CHECK_DEADLOCK FALSE
