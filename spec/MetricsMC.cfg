CONSTANTS
  Ps = {1}
  Ds = {1, 2}
  MaxTerms = 1
  MinPts = 2
  MaxPts = 2
  Kinds = {"lmc", "slfm", "indep"}
  KTypes = {"rbf"}
  Ranks = {1}
  Scaled = {FALSE}
  Norms = {FALSE}
  Bounds = {"none"}
  Its = {2}
  MaxOps = 3
  MaxIt = 2
  Sim = FALSE
INIT MInit
NEXT MNext
INVARIANTS OneEntryPerUpdate RunIsRecent
CONSTRAINT Emit
