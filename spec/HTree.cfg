SPECIFICATION Spec
CONSTANTS
  R = 4
  MaxNames = 4
  MaxDepth = 2
  Emit = TRUE
INVARIANTS KeysSorted Complete Agree
CHECK_DEADLOCK FALSE
