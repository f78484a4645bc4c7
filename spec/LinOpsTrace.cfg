CONSTANTS
  MaxStack = 0
  MaxOps = 0
  MaxN = 0
  Entries = {}
  Sizes = {}
  ProbeSeeds = {}
  Big = FALSE
INIT TInit
NEXT TNext
