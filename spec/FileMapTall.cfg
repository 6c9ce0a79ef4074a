SPECIFICATION Spec
CONSTANTS
  MaxBlocks = 3
  MaxExtra = 1
  MaxDepth = 2
  Wraps <- TallWraps
  Emit = TRUE
INVARIANTS Prefix Complete Position
CHECK_DEADLOCK FALSE
