CONSTANTS
  Pures = {}
  Layouts = {"c", "f", "strided", "rev", "int"}
  Sizes = {2, 5}
  MaxOps = 7
  Hist = TRUE
  Sim = TRUE
INIT Init
NEXT Next
INVARIANTS Emit KeptIsOwned DepsAreQueries
