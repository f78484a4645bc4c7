CONSTANTS
  MaxLen = 3
  Vals <- ValsMC
  Kinds = {"tesselate", "search", "beginend", "chunks", "map", "cart", "symm", "eig"}
INIT Init
NEXT Next
INVARIANTS TesselateTiles ChunksTile SearchBoundary BeginEndTile CartBijective
CONSTRAINT Emit
