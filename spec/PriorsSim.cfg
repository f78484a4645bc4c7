CONSTANTS
  Layouts = {"toy", "toy2", "lmc"}
  PriorPool <- PoolSim
  Vals <- ValsSim
  MaxOps = 12
  Sim = TRUE
INIT Init
NEXT Next
INVARIANTS DomainKept
CONSTRAINT Emit
