SPECIFICATION Spec
CONSTANTS
  BlockSizes = {1024, 2048, 4096, 8192, 65536}
INVARIANTS SamePlace SameBytes
CHECK_DEADLOCK FALSE
