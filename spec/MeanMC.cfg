CONSTANTS
  Ds = {1, 2}
  Lens = {0, 2}
  Vals <- ValsMC
  MaxObjs = 2
  MaxOps = 3
  Sim = FALSE
INIT Init
NEXT Next
INVARIANTS Shapes
PROPERTIES Local
CONSTRAINT Emit
