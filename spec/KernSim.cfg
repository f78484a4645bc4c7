CONSTANTS
  Units <- UnitsSim
  SUnits <- SUnitsSim
  KTypes = {"rbf", "m32", "per", "id"}
  Depths = {0, 1, 2}
  Dists = {0, 1, 10, 333, 500, 1000, 1700, 2000, 2500, 6000, 9999, 100000, 1000000}
  Shapes <- ShapesSim
  PVals = {1, 20, 300, 500, 1000, 1500, 2500, 10000, 80000}
  MaxOps = 9
  Sim = TRUE
INIT Init
NEXT Next
CONSTRAINT Emit
