SPECIFICATION Spec
CONSTANTS
  U = 7
  MaxBlocks = 1
  Damage = FALSE
  Emit = TRUE
INVARIANTS Tiled Exact ErrIffDamage
CHECK_DEADLOCK FALSE
