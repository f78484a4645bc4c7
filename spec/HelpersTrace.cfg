CONSTANTS
  MaxLen = 0
  Vals = {}
  Kinds = {"trace"}
INIT TInit
NEXT TNext
