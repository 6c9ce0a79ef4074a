SPECIFICATION Spec
CONSTANTS
  MaxBlocks = 3
  ReadLens = {0, 1, 2, 3, 7}
  Faults = TRUE
  Emit = TRUE
  EmitAt = 14
INVARIANTS InSync
PROPERTIES ReadsContents FailuresStay
CHECK_DEADLOCK FALSE
