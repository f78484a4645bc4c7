CONSTANTS
  Ds = {1, 2, 3, 5}
  Lens = {0, 1, 2, 5, 11}
  Vals <- ValsSim
  MaxObjs = 4
  MaxOps = 14
  Sim = TRUE
INIT Init
NEXT Next
CONSTRAINT Emit
