SPECIFICATION Spec
CONSTANTS
  NB = 6
  Threads = {1, 2, 3, 4}
  StepwiseTurn = FALSE
INVARIANTS PrefixInOrder AllWritten OneWriter Distinct
PROPERTY Completes
CHECK_DEADLOCK FALSE
