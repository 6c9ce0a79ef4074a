SPECIFICATION DxLadderSpec
CONSTANTS
  NN = 6
  MaxD = 5
  MaxK = 3
  MaxL = 2
  Ordered = TRUE
  Emit = FALSE
INVARIANTS DxBounded DxDepth
PROPERTIES Ends
CHECK_DEADLOCK FALSE
