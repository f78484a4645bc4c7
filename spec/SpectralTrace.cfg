CONSTANTS
  MaxStack = 0
  MaxOps = 0
  MaxN = 0
  Entries = {}
  Sizes = {}
  ProbeSeeds = {}
  Big = FALSE
  CholSizes = {}
  CholVals = {}
INIT TInit
NEXT TNext
