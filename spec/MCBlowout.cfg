SPECIFICATION Spec
CONSTANTS Len0 = 7 Ref = 3
INVARIANTS PathFree Falls Start Accepts
CHECK_DEADLOCK FALSE
