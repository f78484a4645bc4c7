CONSTANTS
  Ns = {}
  Chk = 1
  Sizes = {}
  BigSizes = {}
  Fams = {}
  Tols = {}
  Sim = FALSE
INIT TInit
NEXT TNext
