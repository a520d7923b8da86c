SPECIFICATION GSpec
CONSTANTS Vals = {0, 3, 9, 25}
 MaxStep = 3
 Depth = 8
 NSamples = 12
INVARIANTS Emit
CHECK_DEADLOCK FALSE
