SPECIFICATION Spec
CONSTANTS
  MaxBlocks = 2
  ReadLens = {0, 1, 2, 3, 7}
  Faults = TRUE
  Emit = TRUE
  EmitAt = 0
VIEW VW
INVARIANTS InSync
PROPERTIES ReadsContents FailuresStay
CHECK_DEADLOCK FALSE
