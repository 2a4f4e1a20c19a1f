CONSTANTS
  Nums <- NumsThorough
  Dens <- DensThorough
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
