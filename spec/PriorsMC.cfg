CONSTANTS
  Layouts = {"toy"}
  PriorPool <- PoolMC
  Vals <- ValsMC
  MaxOps = 2
  Sim = FALSE
INIT Init
NEXT Next
INVARIANTS GradientsRight DomainKept
CONSTRAINT Emit
