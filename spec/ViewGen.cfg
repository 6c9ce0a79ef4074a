SPECIFICATION GenSpec
CONSTANTS
  NH = 3
  NI = 3
  NC = 3
  MCPaths <- SmallPaths
  MCOps = {}
  MaxLen = 60
  Emit = TRUE
CHECK_DEADLOCK FALSE
