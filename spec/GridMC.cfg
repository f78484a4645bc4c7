CONSTANTS
  Ps = {1, 2}
  Ds = {1, 2, 3}
  MaxTerms = 1
  MinPts = 2
  MaxPts = 3
  Kinds = {"lmc"}
  KTypes = {"rbf"}
  Ranks = {1}
  Scaled = {FALSE}
  Norms = {FALSE}
  Bounds = {"none", "m", "wide", "inside", "lo", "hi"}
  Sim = FALSE
INIT Init
NEXT Next
INVARIANTS AxisMeetsContract
CONSTRAINT Emit
