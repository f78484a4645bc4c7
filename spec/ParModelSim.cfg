CONSTANTS
  Ws = {2, 3, 5}
  Ns = {0, 1, 3, 5, 8, 11}
  MaxRounds = 3
  MaxFail = 2
  Models = TRUE
  MaxOps = 4
  Sim = TRUE
INIT Init
NEXT Next
INVARIANTS Emit ScheduleInvisible Feasible Bounded
