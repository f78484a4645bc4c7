CONSTANTS
  Kinds = {"model", "fk", "query"}
  MaxFaults = 3
  Ps = {1, 2}
  Ds = {1, 2, 3, 4}
  Sim = TRUE
INIT Init
NEXT Next
CONSTRAINT Emit
