CONSTANTS
  MaxExtent = 5
  MaxDim = 3
  MaxSites = 24
  Beyond = 2
INIT Init
NEXT Next
INVARIANTS RowMajor Onto Translation Wrapping Pairs PairsOnto
CHECK_DEADLOCK FALSE
