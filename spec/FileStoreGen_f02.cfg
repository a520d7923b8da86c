CONSTANTS
 Depth = 16
 Focus = "layers"
SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
