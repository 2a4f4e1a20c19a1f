INIT Init
NEXT Next
INVARIANTS Same Decidable Reflexive Trichotomy Mirror
CONSTANTS
  MaxV = 6
