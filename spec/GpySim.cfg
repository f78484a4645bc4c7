CONSTANTS
  Ps = {1}
  Ds = {1, 2, 3, 4}
  MaxTerms = 3
  MinPts = 2
  MaxPts = 5
  Kinds = {"lmc"}
  KTypes = {"rbf", "m32", "per"}
  Ranks = {1, 2, 3}
  Scaled = {FALSE}
  Norms = {FALSE}
  Bounds = {"none"}
  MaxOps = 5
  QCounts = {0, 1, 2, 4}
  QuantSets = {"def", "one", "many", "rev"}
  Sim = TRUE
INIT Init
NEXT Next
CONSTRAINT Emit
