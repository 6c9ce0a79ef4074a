SPECIFICATION Spec
CONSTANTS
  BlockSizes = {1024, 4096, 65536}
  InodeSizes = {128, 256, 1024}
  DescSizes = {32, 64, 128}
  MaxInos = 20000
INVARIANTS Agree Disjoint InTable
CHECK_DEADLOCK FALSE
