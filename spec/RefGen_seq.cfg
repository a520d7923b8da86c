CONSTANTS
 MaxTh = 1
 Len1 = 20
 Len2 = 40
 Read = TRUE
 Num = 1
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
