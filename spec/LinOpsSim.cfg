CONSTANTS
  MaxStack = 3
  MaxOps = 6
  MaxN = 36
  Entries = {0}
  Sizes = {1, 2, 3, 4, 5, 6}
  ProbeSeeds = {1, 2, 3, 4, 5}
  Big = TRUE
INIT Init
NEXT Next
INVARIANTS SymmetricOnes
CONSTRAINT Emit
