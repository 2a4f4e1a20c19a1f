INIT Init
NEXT Next
INVARIANTS GcdRight Pascal Ends Symmetric Extremes Squares
CONSTANTS
  MaxN = 14
