CONSTANTS
  Origins <- OriginsMC
  Deltas = {1, 8, 250, 1000, 3333, 40000}
  Sizes = {4, 5, 6, 7, 9, 12}
  Dims = {1, 2}
  MaxOut = 4
  MaxSamples = 5
  Offsets <- OffsetsMC
  Sim = TRUE
INIT Init
NEXT Next
INVARIANTS WeightLaws
CONSTRAINT Emit
