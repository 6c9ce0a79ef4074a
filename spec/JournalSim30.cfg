SPECIFICATION Spec
CONSTANTS
  NB = 4
  L = 14
  MaxTid = 9
  Damage = TRUE
  Quirk = TRUE
  MinLen = 30
  Emit = TRUE
INVARIANTS Recovers Current
CHECK_DEADLOCK FALSE
