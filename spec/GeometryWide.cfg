SPECIFICATION SpecWide
CONSTANTS
  BlockSizes = {1024}
  InodeSizes = {128, 256, 1024, 16384, 32768}
  DescSizes = {32, 64}
  MaxInos = 0
INVARIANTS Agree Disjoint InTable
CHECK_DEADLOCK FALSE
