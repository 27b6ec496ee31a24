CONSTANTS Depth = 7 MaxLen = 100
SPECIFICATION Spec
INVARIANTS HistoryIsSuffix
CHECK_DEADLOCK FALSE
