SPECIFICATION Spec
CONSTANTS
  NG = 5
  MaxData = 3
INVARIANTS CrashSafe RootLast MarkLast ClosedReadable CutNeverReadable
CHECK_DEADLOCK FALSE
