SPECIFICATION Spec
CONSTANTS
  Sym = {"a", ".", "/", "z", "u", "L"}
  MaxOne = 5
  MaxA = 3
  MaxB = 2
  Emit = TRUE
INVARIANTS ScannerIsSplit ScannerProgress CompsAreNames JoinLaws RejoinLaw EmitInv
PROPERTY Termination
CHECK_DEADLOCK FALSE
