CONSTANTS
 Threads = {1, 2, 3}
 Objects = {1, 2, 3}
 MaxRefs = 3
 SplitRelease = FALSE
 LateExpire = FALSE
 WithCache = TRUE
SPECIFICATION Spec
INVARIANT Once
INVARIANT HeldIsAlive
INVARIANT NoUseAfterDelete
INVARIANT NoLeak
INVARIANT CountIsOwners
INVARIANT WeakTells
INVARIANT WeakKeeps
PROPERTY HitsLive
CHECK_DEADLOCK FALSE
