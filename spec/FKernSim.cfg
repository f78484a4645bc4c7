CONSTANTS
  Ps = {1, 2, 3, 12}
  Ds = {1, 2, 3, 5}
  MaxTerms = 6
  MinPts = 1
  MaxPts = 1
  Kinds = {"lmc", "slfm", "indep"}
  KTypes = {"rbf", "m32", "per", "id"}
  Ranks = {1, 2, 3, 5}
  Scaled = {FALSE, TRUE}
  Norms = {FALSE}
  Bounds = {"none"}
  MaxOps = 10
  Sim = TRUE
INIT Init
NEXT Next
CONSTRAINT Emit
