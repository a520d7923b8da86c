SPECIFICATION GSpec
CONSTANTS
  Fields = {1, 2}
  Values <- GValues
  Mins <- GMins
  Ress <- GRess
  Orders = {0, 1, 2}
  Depth = 24
INVARIANTS Shape Emit
CHECK_DEADLOCK FALSE
