SPECIFICATION Spec
CONSTANTS
  MaxLinks = 40
  MaxLen = 4096
  Counts = {0, 1, 2, 7, 39, 40, 41, 42}
  DirLens = {0, 50, 101, 104, 200}
  Deltas <- MCDeltas
  Emit = TRUE
INVARIANTS LinkBound CycleFails CountExact LenBound
CHECK_DEADLOCK FALSE
