INIT Init
NEXT Next
INVARIANTS Right Canonical
CONSTANTS
  MaxLen = 4
  Bytes = {0, 1, 255}
  Buffer = 2
