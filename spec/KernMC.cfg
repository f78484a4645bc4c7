CONSTANTS
  Units = {0}
  SUnits = {0}
  KTypes = {"rbf", "m32", "per", "id"}
  Depths = {0, 1, 2}
  Dists = {0, 1, 500, 1700, 6000}
  Shapes <- ShapesMC
  PVals = {300, 1000, 2500}
  MaxOps = 2
  Sim = FALSE
INIT Init
NEXT Next
INVARIANTS KernelSane
CONSTRAINT Emit
