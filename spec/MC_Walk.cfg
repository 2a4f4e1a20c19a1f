CONSTANTS
  MaxExtent = 5
  MaxDim = 3
  MaxSites = 8
  MaxWind = 1
INIT Init
NEXT Next
CONSTRAINT Bounded
INVARIANTS Leads ClosedWalk JumpMinimal
CHECK_DEADLOCK FALSE
