CONSTANTS
  Ps = {1, 2, 3}
  Ds = {1, 2, 3, 4}
  MaxTerms = 3
  MinPts = 2
  MaxPts = 5
  Kinds = {"lmc", "slfm", "indep"}
  KTypes = {"rbf", "m32", "per", "id"}
  Ranks = {1, 2}
  Scaled = {FALSE, TRUE}
  Norms = {FALSE, TRUE}
  Bounds = {"none", "m", "wide", "inside", "lo", "hi"}
  Modes = {"exact", "on-the-fly", "precompute"}
  QCounts = {0, 1, 2, 4}
  MaxBatches = 3
  QuantSets = {"def", "one", "many", "rev"}
  Sim = TRUE
INIT Init
NEXT Next

CONSTRAINT Emit
