CONSTANTS
 Orders = {0, 1}
 Values = {0, 1}
SPECIFICATION Spec
INVARIANTS RoundTrip Served Size
CHECK_DEADLOCK FALSE
