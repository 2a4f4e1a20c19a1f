INIT Init
NEXT Next
INVARIANTS KahanBound NeumaierBound
CONSTANTS
  P = 4
  Most = 5
  Vals <- ValsQuick
CHECK_DEADLOCK FALSE
