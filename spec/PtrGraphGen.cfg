SPECIFICATION GenSpec
CONSTANTS
  NN = 4
  MaxD = 3
  MaxK = 4
  MaxL = 8
  Ordered = TRUE
  Emit = TRUE
CHECK_DEADLOCK FALSE
