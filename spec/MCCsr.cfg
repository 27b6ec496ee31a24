CONSTANTS Depth = 5 MaxLen = 40
SPECIFICATION Spec
INVARIANTS HistoryIsSuffix
CHECK_DEADLOCK FALSE
