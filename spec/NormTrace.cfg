CONSTANTS
  Ps = {}
  Ds = {}
  MaxTerms = 0
  MinPts = 0
  MaxPts = 0
  Kinds = {}
  KTypes = {}
  Ranks = {}
  Scaled = {}
  Norms = {}
  Bounds = {}
  Sim = FALSE
  Modes = {}
  QCounts = {}
  MaxBatches = 0
  QuantSets = {}
INIT TInit
NEXT TNext
