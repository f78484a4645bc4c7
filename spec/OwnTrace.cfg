CONSTANTS
  Pures = {}
  Layouts = {}
  Sizes = {}
  MaxOps = 0
  Hist = FALSE
  Sim = FALSE
INIT TInit
NEXT TNext
