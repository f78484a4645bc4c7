CONSTANTS
  Ds = {}
  Lens = {}
  Vals = {}
  MaxObjs = 0
  MaxOps = 0
  Sim = FALSE
INIT TInit
NEXT TNext
