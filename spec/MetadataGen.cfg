SPECIFICATION GSpec
CONSTANTS Objs = {1, 2, 3}
 Types = {"s", "i", "f", "vi", "vf"}
 Names = {0}
 Vals = {0}
 NN = 15
 NV = 7
 Depth = 30
INVARIANTS Emit
CHECK_DEADLOCK FALSE
