CONSTANTS
  Layouts = {}
  PriorPool = {}
  Vals = {}
  MaxOps = 0
  Sim = FALSE
INIT TInit
NEXT TNext
