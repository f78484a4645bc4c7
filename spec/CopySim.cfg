CONSTANTS
  Ps = {1, 2}
  Ds = {1, 2, 3}
  MaxTerms = 3
  MinPts = 2
  MaxPts = 3
  Kinds = {"lmc", "slfm", "indep"}
  KTypes = {"rbf", "m32", "per"}
  Ranks = {1, 2}
  Scaled = {FALSE, TRUE}
  Norms = {FALSE, TRUE}
  Bounds = {"none", "m", "wide"}
  MaxModels = 1
  MaxOps = 14
  Fine = FALSE
  Copies = 2
  Attr = TRUE
  Sim = TRUE
INIT Init
NEXT Next
INVARIANTS Current TablesFresh Exclusive
PROPERTIES Independent CopyEqual
CONSTRAINT Emit
