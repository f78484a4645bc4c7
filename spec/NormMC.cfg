CONSTANTS
  Ps = {1}
  Ds = {1, 2, 3}
  MaxTerms = 2
  MinPts = 2
  MaxPts = 2
  Kinds = {"lmc", "slfm", "indep"}
  KTypes = {"rbf"}
  Ranks = {1}
  Scaled = {FALSE}
  Norms = {TRUE}
  Bounds = {"none"}
  Modes = {"exact", "on-the-fly", "precompute"}
  QCounts = {0, 1}
  MaxBatches = 1
  QuantSets = {"ext", "def", "rev"}
  Sim = FALSE
INIT Init
NEXT Next

CONSTRAINT Emit
