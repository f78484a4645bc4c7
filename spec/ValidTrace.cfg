CONSTANTS
  Kinds = {}
  MaxFaults = 0
  Ps = {}
  Ds = {}
  Sim = FALSE
INIT TInit
NEXT TNext
