SPECIFICATION GSpec
CONSTANTS Its = {1, 2}
 Depth = 16
INVARIANTS Emit Enumerates
CHECK_DEADLOCK FALSE
