SPECIFICATION Spec
CONSTANTS
  MaxDev = 2
  Bases = {"b1", "b2", "b3", "b4", "b5", "b6", "b7", "b8"}
  Emit = TRUE
INVARIANTS CompatNeverPrevents IncompatDecides ChecksumsOnlyWhenEnabled EmitInv
CHECK_DEADLOCK FALSE
