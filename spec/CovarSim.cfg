CONSTANTS
  Ps = {1, 2, 3}
  Ds = {1, 2, 3, 4}
  MaxTerms = 4
  MinPts = 2
  MaxPts = 5
  Kinds = {"lmc", "slfm", "indep"}
  KTypes = {"rbf", "m32", "per", "id"}
  Ranks = {1, 2, 3}
  Scaled = {FALSE, TRUE}
  Norms = {FALSE, TRUE}
  Bounds = {"none", "m", "wide", "inside", "lo", "hi"}
  Sim = TRUE
INIT Init
NEXT Next
INVARIANTS RepresentationsAgree
CONSTRAINT Emit
