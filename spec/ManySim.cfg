SPECIFICATION GenSpec
CONSTANTS
  A = 16
  B = 8
  S = 4
  Targets <- SimTargets
  MaxPos = 6
  Factor = 3
  Emit = TRUE
INVARIANTS Transparent MemoTrue
CHECK_DEADLOCK FALSE
