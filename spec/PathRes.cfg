SPECIFICATION Spec
CONSTANTS
  MaxLinks = 3
  TargetComps = {"a", "s", "f", ".."}
  MaxTarget = 1
  PathComps = {"a", "b", "f", "s", ".", ".."}
  MaxPath = 3
  Templates = {"A", "B", "C"}
  TSlash = {TRUE, FALSE}
  EmitMod = 1
  Emit = FALSE
INVARIANTS Canonical PrefixIsCurrent Agree LinkBound
CHECK_DEADLOCK FALSE
