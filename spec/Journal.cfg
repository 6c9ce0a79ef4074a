SPECIFICATION Spec
CONSTANTS
  NB = 2
  L = 6
  MaxTid = 2
  Damage = TRUE
  Quirk = TRUE
  MinLen = 0
  Emit = TRUE
INVARIANTS Recovers Current
CHECK_DEADLOCK FALSE
