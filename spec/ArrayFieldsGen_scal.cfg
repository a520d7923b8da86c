SPECIFICATION GSpec
CONSTANTS
  Dense = {1, 2, 3}
  Mac = {}
  Vals <- GVals
  Mins <- GMins
  Ress <- GRess
  Pads <- GPads
  Depth = 24
  Flavor = "scal"
INVARIANTS Shape Emit
CHECK_DEADLOCK FALSE
