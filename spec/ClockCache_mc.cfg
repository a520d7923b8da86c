SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Blks = {1, 2, 3}
  BSize = 8
  Budget = 8
  Reads = 2
INVARIANTS ReadIsResident Exact Bound Balanced
PROPERTIES Refines Finishes
CHECK_DEADLOCK FALSE
