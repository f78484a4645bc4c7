CONSTANTS
  Ps = {1, 2}
  Ds = {1, 2, 3, 4}
  MaxTerms = 2
  MinPts = 2
  MaxPts = 5
  Kinds = {"lmc", "slfm", "indep"}
  KTypes = {"rbf", "m32", "per", "id"}
  Ranks = {1, 2}
  Scaled = {FALSE, TRUE}
  Norms = {TRUE, TRUE, FALSE}
  Bounds = {"none", "m", "wide", "inside", "lo", "hi"}
  Modes = {"exact", "on-the-fly"}
  QCounts = {0, 1, 2, 4}
  MaxBatches = 2
  QuantSets = {"ext", "def", "one", "many", "rev"}
  Sim = TRUE
INIT Init
NEXT Next

CONSTRAINT Emit
