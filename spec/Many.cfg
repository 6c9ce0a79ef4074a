SPECIFICATION Spec
CONSTANTS
  A = 3
  B = 2
  S = 2
  Targets = {3}
  MaxPos = 1
  Factor = 0
  Emit = FALSE
VIEW VW
INVARIANTS Transparent MemoTrue
PROPERTY Independent
CHECK_DEADLOCK FALSE
