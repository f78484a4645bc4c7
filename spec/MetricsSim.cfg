CONSTANTS
  Ps = {1, 2}
  Ds = {1, 2, 3}
  MaxTerms = 3
  MinPts = 2
  MaxPts = 3
  Kinds = {"lmc", "slfm", "indep"}
  KTypes = {"rbf", "m32", "per", "id"}
  Ranks = {1, 2}
  Scaled = {FALSE, TRUE}
  Norms = {FALSE, TRUE}
  Bounds = {"none", "m"}
  Its = {1, 2, 5}
  MaxOps = 4
  MaxIt = 3
  Sim = TRUE
INIT MInit
NEXT MNext
CONSTRAINT Fits
CONSTRAINT Emit
