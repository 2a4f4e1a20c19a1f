INIT Init
NEXT Next
INVARIANTS One Parts Mirror Chains
CONSTANT N = 4
