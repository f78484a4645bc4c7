CONSTANTS
  Ws = {0, 1, 2, 3}
  Ns = {0, 1, 2, 3, 4}
  MaxRounds = 1
  MaxFail = 2
  Models = FALSE
  MaxOps = 0
  Sim = FALSE
INIT Init
NEXT Next
INVARIANTS Emit ScheduleInvisible Feasible Bounded
