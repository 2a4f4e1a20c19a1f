INIT Init
NEXT Next
INVARIANT Inv
INVARIANT Sparse
PROPERTY Grows
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxBins = 3
  MaxSteps = 5
