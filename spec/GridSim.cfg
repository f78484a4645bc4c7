CONSTANTS
  Ps = {1, 2, 3}
  Ds = {1, 2, 3, 4}
  MaxTerms = 3
  MinPts = 2
  MaxPts = 12
  Kinds = {"lmc", "slfm", "indep"}
  KTypes = {"rbf"}
  Ranks = {1}
  Scaled = {FALSE, TRUE}
  Norms = {FALSE, TRUE}
  Bounds = {"none", "m", "wide", "inside", "lo", "hi"}
  Sim = TRUE
INIT Init
NEXT Next
INVARIANTS AxisMeetsContract
CONSTRAINT Emit
