CONSTANTS
  MaxStack = 2
  MaxOps = 3
  MaxN = 9
  Entries = {1, 3}
  Sizes = {1, 2, 3}
  ProbeSeeds = {1}
  Big = FALSE
  CholSizes = {1, 2, 3, 4}
  CholVals <- CholValsMC
INIT Init
NEXT SpNext
INVARIANTS BoundIsBound FastBoundIsRowSum
CONSTRAINT Emit
