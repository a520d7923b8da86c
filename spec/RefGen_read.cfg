CONSTANTS
 MaxTh = 4
 Len1 = 2
 Len2 = 5
 Read = TRUE
 Num = 1
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
