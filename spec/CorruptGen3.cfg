SPECIFICATION GenSpec
CONSTANTS
  MaxMut = 3
  Emit = TRUE
CHECK_DEADLOCK FALSE
