CONSTANTS
  Entries <- EntriesSim
  Scales = {1, 7, 1000, 90000}
  Defaults = {"none", "none", "all", "stop", "rule"}
  Dim = 2
  MaxIts = {1, 2, 5, 8, 12, 20}
  Ratios = {0, 100, 250, 500, 1000}
  Drops = {0, 1, 2, 3, 5}
  Steps <- StepsSim
  Runs = 3
  Sim = TRUE
INIT Init
NEXT Next
INVARIANTS ContractAtEnd
CONSTRAINT Emit
