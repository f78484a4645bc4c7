CONSTANTS
  Entries <- EntriesMC
  Scales = {1}
  Defaults = {"none"}
  Dim = 1
  MaxIts = {0, 1, 3, 4}
  Ratios = {0, 100, 500, 1000}
  Drops = {0, 1, 2}
  Steps <- StepsMC
  Runs = 1
  Sim = FALSE
INIT Init
NEXT Next
INVARIANTS Contract
CONSTRAINT Emit
