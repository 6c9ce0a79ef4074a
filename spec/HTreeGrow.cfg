SPECIFICATION Spec
CONSTANTS
  R = 3
  PerHash = 3
  C = 2
  FR = 2
  F = 3
  MaxOps = 8
  OnlyLong = FALSE
  Emit = FALSE
INVARIANTS Fits Refines Found
CHECK_DEADLOCK FALSE
