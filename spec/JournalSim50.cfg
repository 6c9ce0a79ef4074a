SPECIFICATION Spec
CONSTANTS
  NB = 4
  L = 17
  MaxTid = 14
  Damage = TRUE
  Quirk = TRUE
  MinLen = 50
  Emit = TRUE
INVARIANTS Recovers Current
CHECK_DEADLOCK FALSE
