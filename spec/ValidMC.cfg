CONSTANTS
  Kinds = {"model", "fk", "mat", "query", "mean", "dims"}
  MaxFaults = 1
  Ps = {1, 2}
  Ds = {1, 2}
  Sim = FALSE
INIT Init
NEXT Next
INVARIANTS FaultsAreBad
CONSTRAINT Emit
