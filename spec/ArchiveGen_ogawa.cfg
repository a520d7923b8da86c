SPECIFICATION Spec
CONSTANTS
  Format = "ogawa"
  MaxLayers = 5
  MaxImages = 40
INVARIANT Emit
CHECK_DEADLOCK FALSE
