SPECIFICATION Spec
CONSTANTS
  Sym = {"a", ".", "/", "z", "u", "L"}
  MaxOne = 6
  MaxA = 3
  MaxB = 3
  Emit = TRUE
INVARIANTS ScannerIsSplit ScannerProgress CompsAreNames JoinLaws RejoinLaw EmitInv
PROPERTY Termination
CHECK_DEADLOCK FALSE
