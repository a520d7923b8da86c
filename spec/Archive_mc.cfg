SPECIFICATION Spec
CONSTANTS
  NG = 4
  MaxData = 2
INVARIANTS CrashSafe RootLast MarkLast ClosedReadable CutNeverReadable
CHECK_DEADLOCK FALSE
