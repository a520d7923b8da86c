CONSTANTS
 Threads = {1, 2, 3}
 Objects = {1, 2}
 MaxRefs = 4
 SplitRelease = FALSE
 LateExpire = FALSE
 WithCache = FALSE
SPECIFICATION Spec
INVARIANT Once
INVARIANT HeldIsAlive
INVARIANT NoUseAfterDelete
INVARIANT NoLeak
INVARIANT CountIsOwners
INVARIANT WeakTells
INVARIANT WeakKeeps
PROPERTY HitsLive
CHECK_DEADLOCK FALSE
