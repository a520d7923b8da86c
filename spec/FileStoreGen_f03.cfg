CONSTANTS
 Depth = 24
 Focus = "objects"
SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
