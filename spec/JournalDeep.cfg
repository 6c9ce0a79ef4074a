SPECIFICATION Spec
CONSTANTS
  NB = 2
  L = 7
  MaxTid = 3
  Damage = TRUE
  Quirk = TRUE
  MinLen = 0
  Emit = FALSE
INVARIANTS Recovers Current
CHECK_DEADLOCK FALSE
