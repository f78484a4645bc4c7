CONSTANTS
  Kinds = {"method", "prop", "rwprop", "docprop", "attr", "static", "classm"}
  MaxMem = 1
  MaxCls = 3
  Sim = FALSE
INIT Init
NEXT Next
INVARIANTS OwnKept
PROPERTIES Stable
CONSTRAINT Emit
