CONSTANTS
  Ws = {0, 2, 3, 4}
  Ns = {0, 1, 3, 5, 8, 40}
  MaxRounds = 3
  MaxFail = 2
  Models = FALSE
  MaxOps = 0
  Sim = TRUE
INIT Init
NEXT Next
INVARIANTS Emit ScheduleInvisible Feasible Bounded
