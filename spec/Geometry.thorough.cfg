SPECIFICATION Spec
CONSTANTS
  BlockSizes = {1024, 2048, 4096, 8192, 16384, 65536}
  InodeSizes = {128, 256, 512, 1024, 4096}
  DescSizes = {32, 64, 128, 256, 1024}
  MaxInos = 40000
INVARIANTS Agree Disjoint InTable
CHECK_DEADLOCK FALSE
