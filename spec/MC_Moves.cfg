INIT Init
NEXT Next
INVARIANT Inv
CONSTANT Most = 3
