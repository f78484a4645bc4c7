CONSTANTS
  Entries = {}
  Scales = {}
  Defaults = {}
  Dim = 0
  MaxIts = {}
  Ratios = {}
  Drops = {}
  Steps = {}
  Runs = 0
  Sim = FALSE
INIT TInit
NEXT TNext
