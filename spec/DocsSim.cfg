CONSTANTS
  Kinds = {"method", "prop", "rwprop", "docprop", "attr", "static", "classm"}
  MaxMem = 4
  MaxCls = 5
  Sim = TRUE
INIT Init
NEXT Next
INVARIANTS OwnKept
CONSTRAINT Emit
