CONSTANTS
  Nums <- NumsDef
  Dens = {1, 10}
  Smalls <- SmallsDef
INIT Init
NEXT Next
INVARIANTS Limbs Field Functions Known Linear
