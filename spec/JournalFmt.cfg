SPECIFICATION Spec
CONSTANTS
  TagCap = 6
  RevCap = 5
INVARIANTS AllOrNothing NewestWins
CHECK_DEADLOCK FALSE
