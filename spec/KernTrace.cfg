CONSTANTS
  Units = {}
  SUnits = {}
  KTypes = {}
  Depths = {}
  Dists = {}
  Shapes = {}
  PVals = {}
  MaxOps = 0
  Sim = FALSE
INIT TInit
NEXT TNext
