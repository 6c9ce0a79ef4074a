SPECIFICATION Spec
CONSTANTS
  U = 4
  MaxBlocks = 2
  Damage = TRUE
  Emit = TRUE
INVARIANTS Tiled Exact ErrIffDamage
CHECK_DEADLOCK FALSE
