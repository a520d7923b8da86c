SPECIFICATION Spec
CONSTANTS Times = {0, 1, 3, 6}
 Vals = {0, 1, 4}
INVARIANTS Sorted Latest AtSamples Bounded Outside Commute
CHECK_DEADLOCK FALSE
