SPECIFICATION Spec
CONSTANTS
  MaxBlocks = 4
  MaxExtra = 2
  MaxDepth = 2
  Wraps <- NoWrap
  Emit = TRUE
INVARIANTS Prefix Complete Position
CHECK_DEADLOCK FALSE
