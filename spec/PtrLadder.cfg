SPECIFICATION LadderSpec
CONSTANTS
  NN = 6
  MaxD = 5
  MaxK = 3
  MaxL = 2
  Ordered = TRUE
  Emit = TRUE
INVARIANTS Bounded DepthBounded
PROPERTIES Ends
CHECK_DEADLOCK FALSE
