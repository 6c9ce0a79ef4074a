SPECIFICATION EmitSpec
CONSTANTS
  MaxLinks = 40
  TargetComps = {"a", "s", "f", ".."}
  MaxTarget = 2
  PathComps = {"a", "b", "f", "s", ".", "..", "x"}
  MaxPath = 3
  Templates = {"A", "B", "C"}
  TSlash = {TRUE, FALSE}
  EmitMod = 9
  Emit = TRUE
CHECK_DEADLOCK FALSE
