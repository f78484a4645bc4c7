CONSTANTS
  Ns = {}
  Chk = 3
  Sizes = {1, 2, 3, 5, 8, 12, 20, 35}
  BigSizes = {110, 150, 220, 310}
  Fams = {"lap", "toep", "diag", "gram", "smooth"}
  Tols = {99, 0, 1, 2, 3, 4, 5, 6}
  Sim = TRUE
INIT Init
NEXT Next
CONSTRAINT Emit
