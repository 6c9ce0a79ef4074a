SPECIFICATION Spec
INVARIANTS Existence Canonical ReadImpliesOpen StringImpliesRead DirOrFile LinkOnlyNoFollow
CHECK_DEADLOCK FALSE
