SPECIFICATION MCSpec
CONSTANTS Its = {1, 2}
INVARIANTS Enumerates
PROPERTY EndsForGood
CHECK_DEADLOCK FALSE
