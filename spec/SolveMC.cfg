CONSTANTS
  Ns = {0, 1, 2, 3, 4, 5, 6, 7}
  Chk = 3
  Sizes = {1, 2, 4, 9}
  BigSizes = {}
  Fams = {"lap", "toep", "diag", "gram", "smooth"}
  Tols = {99, 2, 6}
  Sim = FALSE
INIT Init
NEXT Next
INVARIANTS Honest
CONSTRAINT Emit
