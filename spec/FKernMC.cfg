CONSTANTS
  Ps = {1, 2}
  Ds = {1, 2}
  MaxTerms = 2
  MinPts = 1
  MaxPts = 1
  Kinds = {"lmc", "slfm", "indep"}
  KTypes = {"rbf"}
  Ranks = {1, 2}
  Scaled = {FALSE}
  Norms = {FALSE}
  Bounds = {"none"}
  MaxOps = 2
  Sim = FALSE
INIT Init
NEXT Next
INVARIANTS Partition FixedParts
PROPERTIES DimOnce
CONSTRAINT Emit
