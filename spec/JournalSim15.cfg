SPECIFICATION Spec
CONSTANTS
  NB = 3
  L = 10
  MaxTid = 6
  Damage = TRUE
  Quirk = TRUE
  MinLen = 15
  Emit = TRUE
INVARIANTS Recovers Current
CHECK_DEADLOCK FALSE
