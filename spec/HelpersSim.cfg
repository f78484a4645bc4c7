CONSTANTS
  MaxLen = 9
  Vals <- ValsSim
  Kinds = {"tesselate", "search", "beginend", "chunks", "map", "cart", "symm", "eig"}
INIT Init
NEXT Next
INVARIANTS TesselateTiles ChunksTile SearchBoundary BeginEndTile CartBijective
CONSTRAINT Emit
