SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Blks = {1, 2}
  BSize = 8
  Budget = 4
  Reads = 2
INVARIANTS ReadIsResident Exact Bound Balanced
PROPERTIES Refines Finishes
CHECK_DEADLOCK FALSE
