SPECIFICATION Spec
CONSTANTS
  ND = 2
  P = 2
  MaxAlloc = 2
  MaxEmpty = 1
  RP = 256
  Emit = TRUE
INVARIANTS Prefix Complete
CHECK_DEADLOCK FALSE
