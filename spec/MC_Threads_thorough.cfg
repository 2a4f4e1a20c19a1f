INIT Init
NEXT Next
CONSTANTS
  Threads = {t1, t2, t3}
  Objects = {a, b, c}
  Everyone = all
  Most = 3
  Shared = FALSE
INVARIANTS Exclusive Right
PROPERTY Published
CHECK_DEADLOCK FALSE
