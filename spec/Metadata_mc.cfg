SPECIFICATION MCSpec
CONSTANTS Objs = {1, 2}
 Types = {"s", "i"}
 Names = {1, 2}
 Vals = {0, 1}
INVARIANTS Shape DefaultUnset
PROPERTY Local
CHECK_DEADLOCK FALSE
