CONSTANTS
  MaxExtent = 4
  MaxDim = 2
  MaxSites = 4
  MaxWind = 9
  Depth = 3
INIT GInit
NEXT GNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
