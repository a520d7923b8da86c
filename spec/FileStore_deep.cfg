CONSTANTS
  Bases = {"p", "q"}
  Names = {"a", "b"}
  Maps = {1, 2}
  MaxWrites = 5
  NPaths = 2
SPECIFICATION Spec
INVARIANTS OnDisk Reported Written
CHECK_DEADLOCK FALSE
