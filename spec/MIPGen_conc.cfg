CONSTANTS
 MaxTh = 3
 Len1 = 2
 Len2 = 4
 Kinds = {0, 1, 3}
 Fmts = {0, 2, 2}
 Num = 1
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
