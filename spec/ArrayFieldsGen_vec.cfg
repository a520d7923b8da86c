SPECIFICATION GSpec
CONSTANTS
  Dense = {1, 2}
  Mac = {3, 4}
  Vals <- GVals
  Mins <- GMins
  Ress <- GRess
  Pads <- GPads
  Depth = 24
  Flavor = "vec"
INVARIANTS Shape Emit
CHECK_DEADLOCK FALSE
