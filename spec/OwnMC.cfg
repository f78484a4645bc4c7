CONSTANTS
  Pures = {"autogrid", "cubic", "bicubic", "multi", "multi2", "kernel", "solve", "solvecg", "toeplitz", "bttb", "diag", "dense", "kron", "sum", "comp", "blocks", "blockdiag", "ski", "tesselate", "search", "eig", "symmap", "offsets", "chunks", "product", "entries", "mean", "kern", "prior", "shur", "fkern", "gpy", "norm"}
  Layouts = {"c", "f", "strided", "rev", "int"}
  Sizes = {2, 5}
  MaxOps = 0
  Hist = FALSE
  Sim = FALSE
INIT Init
NEXT Next
INVARIANTS Emit KeptIsOwned DepsAreQueries
