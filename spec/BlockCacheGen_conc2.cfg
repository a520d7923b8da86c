SPECIFICATION GSpec
CONSTANTS
  NT = 2
  NShared = 2
  NPriv = 1
  NFiles = 3
  Len0 = 14
  Flavor = "tiny"
INVARIANTS Emit Rules
CHECK_DEADLOCK FALSE
