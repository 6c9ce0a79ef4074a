SPECIFICATION Spec
CONSTANTS
  C = 4
  R = 2
  NB = 6
  MaxLen = 0
  Emit = FALSE
INVARIANTS Transparent EntriesTrue
PROPERTIES FailureInvisible
CHECK_DEADLOCK FALSE
