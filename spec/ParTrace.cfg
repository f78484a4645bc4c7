CONSTANTS
  Ws = {}
  Ns = {}
  MaxRounds = 0
  MaxFail = 0
  Models = FALSE
  MaxOps = 0
  Sim = FALSE
INIT TInit
NEXT TNext
