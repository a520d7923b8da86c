CONSTANTS
 MaxR = 12
 Offs = {0, 1, 2, 3, 4, 5, 6, 7, 8}
 MaxL = 3
 Vals = {0, 1, 2}
 MaxFill = 5
SPECIFICATION Spec
INVARIANT Covers
INVARIANT Steps
INVARIANT Shrinks
INVARIANT Const
INVARIANT Bounds
INVARIANT Tight
INVARIANT Sampled
CHECK_DEADLOCK FALSE
