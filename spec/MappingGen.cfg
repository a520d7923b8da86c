SPECIFICATION GSpec
CONSTANTS Objs = {1, 2, 3}
 Depth = 26
INVARIANTS Emit Ordered
CHECK_DEADLOCK FALSE
