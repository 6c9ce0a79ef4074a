SPECIFICATION GenSpec
CONSTANTS
  C = 8
  R = 1
  NB = 11
  MaxLen = 80
  Emit = TRUE
INVARIANTS Transparent EntriesTrue
CHECK_DEADLOCK FALSE
