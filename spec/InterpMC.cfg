CONSTANTS
  Origins = {0, 100}
  Deltas = {500}
  Sizes = {4, 5}
  Dims = {1}
  MaxOut = 2
  MaxSamples = 1
  Offsets = {0, 1, 2, 6, 7, 8}
  Sim = FALSE
INIT Init
NEXT Next
INVARIANTS WeightLaws
CONSTRAINT Emit
