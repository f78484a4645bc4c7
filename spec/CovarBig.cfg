CONSTANTS
  Ps = {1}
  Ds = {2}
  MaxTerms = 1
  MinPts = 50
  MaxPts = 55
  Kinds = {"lmc"}
  KTypes = {"id"}
  Ranks = {2}
  Scaled = {FALSE, TRUE}
  Norms = {FALSE, TRUE}
  Bounds = {"m"}
  Sim = TRUE
  Gain <- Gain10k
INIT Init
NEXT Next
CONSTRAINT Emit
