CONSTANTS
  MaxStack = 3
  MaxOps = 6
  MaxN = 30
  Entries = {0}
  Sizes = {1, 2, 3, 4, 5, 6, 9}
  ProbeSeeds = {1, 2, 3, 4, 5, 6, 7}
  Big = TRUE
  CholSizes = {1, 2, 3, 5, 8, 13}
  CholVals = {0}
INIT Init
NEXT SpNext
INVARIANTS FastBoundIsRowSum
CONSTRAINT Emit
