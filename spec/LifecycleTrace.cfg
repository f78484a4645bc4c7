CONSTANTS
  Ps = {}
  Ds = {}
  MaxTerms = 0
  MinPts = 0
  MaxPts = 0
  Kinds = {}
  KTypes = {}
  Ranks = {}
  Scaled = {}
  Norms = {}
  Bounds = {}
  MaxModels = 0
  MaxOps = 0
  Fine = FALSE
  Copies = 0
  Attr = FALSE
  Sim = FALSE
INIT TInit
NEXT TNext
