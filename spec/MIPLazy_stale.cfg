CONSTANTS
 Threads = {1, 2}
 Levels = {1}
 PublishEarly = FALSE
 CopyUnlocked = FALSE
 KeepStale = TRUE
 NoRecheck = FALSE
SPECIFICATION Spec
INVARIANT NothingBad
INVARIANT Once
INVARIANT Whole
INVARIANT Reachable

CHECK_DEADLOCK FALSE
