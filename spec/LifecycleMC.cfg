CONSTANTS
  Ps = {1}
  Ds = {1}
  MaxTerms = 1
  MinPts = 2
  MaxPts = 2
  Kinds = {"lmc"}
  KTypes = {"rbf"}
  Ranks = {1}
  Scaled = {FALSE}
  Norms = {FALSE}
  Bounds = {"m"}
  MaxModels = 2
  MaxOps = 12
  Fine = TRUE
  Copies = 0
  Attr = FALSE
  Sim = FALSE
INIT Init
NEXT Next
VIEW Abstract
INVARIANTS Current TablesFresh Exclusive
PROPERTIES Independent CopyEqual
CONSTRAINT Emit
