CONSTANTS
 Threads = {1, 2}
 Objects = {1}
 MaxRefs = 2
 SplitRelease = TRUE
 LateExpire = FALSE
 WithCache = FALSE
SPECIFICATION Spec
INVARIANT Once
INVARIANT HeldIsAlive
INVARIANT NoUseAfterDelete
INVARIANT NoLeak
INVARIANT CountIsOwners
INVARIANT WeakTells
INVARIANT WeakKeeps
PROPERTY HitsLive
CHECK_DEADLOCK FALSE
