INIT Init
NEXT Next
INVARIANTS KahanBound NeumaierBound
CONSTANTS
  P = 4
  Most = 5
  Vals <- ValsThorough
CHECK_DEADLOCK FALSE
