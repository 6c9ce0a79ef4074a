SPECIFICATION GenSpec
CONSTANTS
  MaxMut = 2
  Emit = TRUE
CHECK_DEADLOCK FALSE
