CONSTANTS
 MaxTh = 4
 Len1 = 3
 Len2 = 9
 Read = FALSE
 Num = 1
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
