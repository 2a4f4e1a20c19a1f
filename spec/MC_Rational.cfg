CONSTANT N = 4
INIT Init
NEXT Next
INVARIANTS Trichotomy Transitive Commutes Inverses RoundTrip Monotone
CHECK_DEADLOCK FALSE
