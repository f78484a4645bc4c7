CONSTANTS
  Ps = {1}
  Ds = {1, 2, 3}
  MaxTerms = 2
  MinPts = 2
  MaxPts = 2
  Kinds = {"lmc"}
  KTypes = {"rbf"}
  Ranks = {1, 2}
  Scaled = {FALSE}
  Norms = {FALSE}
  Bounds = {"none"}
  MaxOps = 2
  QCounts = {0, 1, 2}
  QuantSets = {"def"}
  Sim = FALSE
INIT Init
NEXT Next
INVARIANTS Sane
CONSTRAINT Emit
