CONSTANTS
  Kinds = {"model", "fk", "mat", "query", "mean", "dims"}
  MaxFaults = 2
  Ps = {1, 2}
  Ds = {1, 2, 3}
  Sim = FALSE
INIT Init
NEXT Next
INVARIANTS FaultsAreBad
