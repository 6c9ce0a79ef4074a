SPECIFICATION Spec
CONSTANTS
  R = 6
  PerHash = 4
  C = 2
  FR = 2
  F = 3
  MaxOps = 22
  OnlyLong = TRUE
  Emit = TRUE
INVARIANTS Fits Refines Found
CHECK_DEADLOCK FALSE
