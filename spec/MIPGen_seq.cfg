CONSTANTS
 MaxTh = 1
 Len1 = 12
 Len2 = 24
 Kinds = {0, 1, 2, 3, 4, 5}
 Fmts = {0, 1, 2}
 Num = 1
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
