SPECIFICATION Spec
CONSTANTS
  MaxMut = 1
  Emit = TRUE
PROPERTIES Ends
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
