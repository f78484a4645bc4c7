CONSTANTS
  Ps = {1, 2}
  Ds = {1, 2, 3}
  MaxTerms = 2
  MinPts = 2
  MaxPts = 2
  Kinds = {"lmc", "slfm", "indep"}
  KTypes = {"rbf"}
  Ranks = {1, 2}
  Scaled = {FALSE}
  Norms = {FALSE}
  Bounds = {"none"}
  Sim = FALSE
INIT Init
NEXT Next
INVARIANTS RepresentationsAgree
CONSTRAINT Emit
