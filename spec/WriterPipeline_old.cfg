SPECIFICATION Spec
CONSTANTS
  NB = 5
  Threads = {1, 2, 3}
  StepwiseTurn = TRUE
INVARIANTS PrefixInOrder AllWritten OneWriter Distinct
PROPERTY Completes
CHECK_DEADLOCK FALSE
