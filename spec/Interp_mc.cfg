SPECIFICATION MCSpec
CONSTANTS Vals = {0, 3}
 MaxStep = 3
CONSTRAINT Small
INVARIANTS ExactAtCentres Bounded ClampOutside
CHECK_DEADLOCK FALSE
