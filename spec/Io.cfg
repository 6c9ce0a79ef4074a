SPECIFICATION Spec
CONSTANTS
  MaxCalls = 2
  EmitPaths <- Paths
  Modes = {"one", "from", "warm", "load", "loadfrom", "short"}
INVARIANTS OnlyIo IoOnlyOnFault
PROPERTIES EventuallyTrue
CHECK_DEADLOCK FALSE
