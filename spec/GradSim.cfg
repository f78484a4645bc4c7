CONSTANTS
  Ps = {1, 2, 3}
  Ds = {1, 2, 3}
  MaxTerms = 4
  MinPts = 2
  MaxPts = 3
  Kinds = {"lmc", "slfm", "indep"}
  KTypes = {"rbf", "m32", "per", "id"}
  Ranks = {1, 2, 3}
  Scaled = {FALSE, TRUE}
  Norms = {FALSE, TRUE}
  Bounds = {"none", "m", "wide"}
  Its = {1, 2, 3, 15}
  Sim = TRUE
INIT Init
NEXT Next
CONSTRAINT Fits
CONSTRAINT Emit
