CONSTANTS
 Threads = {1, 2}
 Levels = {1}
 PublishEarly = TRUE
 CopyUnlocked = FALSE
 KeepStale = FALSE
 NoRecheck = FALSE
SPECIFICATION Spec
INVARIANT NothingBad
INVARIANT Once
INVARIANT Whole
INVARIANT Reachable

CHECK_DEADLOCK FALSE
