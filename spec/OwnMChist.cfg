CONSTANTS
  Pures = {}
  Layouts = {"c", "strided"}
  Sizes = {2, 5}
  MaxOps = 3
  Hist = TRUE
  Sim = FALSE
INIT Init
NEXT Next
INVARIANTS Emit KeptIsOwned DepsAreQueries
