SPECIFICATION MCSpec
CONSTANTS
  NH = 2
  NI = 1
  NC = 2
  MCPaths <- SmallPaths
  MCOps = {"metadata", "exists"}
  MaxLen = 0
  Emit = FALSE
INVARIANTS TypeOK SomeClone Retry
PROPERTIES Independent Forward
CHECK_DEADLOCK FALSE
