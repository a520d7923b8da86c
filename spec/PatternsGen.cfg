SPECIFICATION GSpec
CONSTANTS Layers = {}
 Depth = 13
INVARIANTS Emit
CHECK_DEADLOCK FALSE
