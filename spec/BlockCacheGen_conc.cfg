SPECIFICATION GSpec
CONSTANTS
  NT = 3
  NShared = 3
  NPriv = 1
  NFiles = 4
  Len0 = 11
  Flavor = "conc"
INVARIANTS Emit Rules
CHECK_DEADLOCK FALSE
