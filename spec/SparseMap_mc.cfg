SPECIFICATION Spec
CONSTANTS
  Fields = {1, 2}
  Values = {0, 2}
  Mins <- MCMins
  Ress <- MCRess
  Orders = {1}
INVARIANTS Shape Uniform Tiling
PROPERTY OneVoxel
CHECK_DEADLOCK FALSE
