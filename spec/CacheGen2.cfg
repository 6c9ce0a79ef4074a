SPECIFICATION GenSpec
CONSTANTS
  C = 16
  R = 2
  NB = 21
  MaxLen = 120
  Emit = TRUE
INVARIANTS Transparent EntriesTrue
CHECK_DEADLOCK FALSE
