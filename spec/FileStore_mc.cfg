CONSTANTS
  Bases = {"p", "q"}
  Names = {"a", "b"}
  Maps = {1, 2}
  MaxWrites = 3
  NPaths = 2
SPECIFICATION Spec
INVARIANTS OnDisk Reported Written
CHECK_DEADLOCK FALSE
