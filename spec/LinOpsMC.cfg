CONSTANTS
  MaxStack = 2
  MaxOps = 3
  MaxN = 12
  Entries = {1, 3}
  Sizes = {1, 2}
  ProbeSeeds = {1}
  Big = FALSE
INIT Init
NEXT Next
INVARIANTS AlgorithmIsDense SymmetricOnes
CONSTRAINT Emit
