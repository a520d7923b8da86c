CONSTANTS
 Sizes = {1, 2, 3, 4, 5, 6, 7, 8, 9}
 Big = {16, 17, 19, 21, 35, 40, 55, 58}
 Offs = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
 Neg = 4
 Pyramids = TRUE
 Longs = 1
 Types = {0, 1, 2, 3}
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
