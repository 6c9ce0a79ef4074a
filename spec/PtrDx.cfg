SPECIFICATION DxSpec
CONSTANTS
  NN = 3
  MaxD = 2
  MaxK = 2
  MaxL = 0
  Ordered = TRUE
  Emit = FALSE
INVARIANTS DxBounded DxDepth
PROPERTIES Ends
CHECK_DEADLOCK FALSE
