SPECIFICATION Spec
CONSTANTS
  NN = 2
  MaxD = 2
  MaxK = 2
  MaxL = 1
  Ordered = TRUE
  Emit = FALSE
INVARIANTS Bounded DepthBounded WfAccepted
PROPERTIES Ends
CHECK_DEADLOCK FALSE
