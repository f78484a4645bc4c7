CONSTANTS
  Ps = {}
  Ds = {}
  MaxTerms = 0
  MinPts = 0
  MaxPts = 0
  Kinds = {}
  KTypes = {}
  Ranks = {}
  Scaled = {}
  Norms = {}
  Bounds = {}
  MaxOps = 0
  QCounts = {}
  QuantSets = {}
  Sim = FALSE
INIT TInit
NEXT TNext
