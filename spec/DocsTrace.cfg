CONSTANTS
  Kinds = {}
  MaxMem = 0
  MaxCls = 0
  Sim = FALSE
INIT TInit
NEXT TNext
