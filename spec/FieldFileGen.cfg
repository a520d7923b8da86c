CONSTANTS
 Depth = 8
SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
