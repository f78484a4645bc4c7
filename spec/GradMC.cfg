CONSTANTS
  Ps = {1}
  Ds = {1, 2}
  MaxTerms = 2
  MinPts = 2
  MaxPts = 2
  Kinds = {"lmc", "slfm", "indep"}
  KTypes = {"rbf", "per"}
  Ranks = {1}
  Scaled = {FALSE}
  Norms = {FALSE}
  Bounds = {"none"}
  Its = {1, 2}
  Sim = FALSE
INIT Init
NEXT Next
INVARIANTS FormulasAreDerivatives
CONSTRAINT Emit
