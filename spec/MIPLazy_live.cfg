CONSTANTS
 Threads = {1, 2}
 Levels = {1}
 PublishEarly = FALSE
 CopyUnlocked = FALSE
 KeepStale = FALSE
 NoRecheck = FALSE
SPECIFICATION FairSpec
INVARIANT NothingBad
INVARIANT Once
INVARIANT Whole
INVARIANT Reachable
PROPERTY Done
CHECK_DEADLOCK FALSE
