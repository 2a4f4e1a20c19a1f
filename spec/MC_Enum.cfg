INIT Init
NEXT Next
INVARIANTS Agrees Back Forth
CONSTANTS
  Letters = {1, 2}
  MaxNames = 3
