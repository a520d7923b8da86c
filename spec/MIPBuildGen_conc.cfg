CONSTANTS
 Sizes = {3, 4, 5}
 Big = {18, 20, 33}
 Offs = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
 Neg = 4
 Pyramids = FALSE
 Longs = 3
 Types = {0, 2}
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
