SPECIFICATION Spec
CONSTANTS
  Regions = {"any", "head", "sum", "tail", "used"}
  EmitPaths <- Paths
INVARIANTS VerdictSound NeverLost
CHECK_DEADLOCK FALSE
