SPECIFICATION GSpec
CONSTANTS
  NT = 1
  NShared = 2
  NPriv = 4
  NFiles = 4
  Len0 = 40
  Flavor = "life"
INVARIANTS Emit Rules
CHECK_DEADLOCK FALSE
