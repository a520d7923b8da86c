SPECIFICATION Spec
CONSTANTS
  Format = "hdf5"
  MaxLayers = 5
  MaxImages = 40
INVARIANT Emit
CHECK_DEADLOCK FALSE
