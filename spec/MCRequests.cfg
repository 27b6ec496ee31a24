SPECIFICATION Spec
CONSTANTS Depth = 4
INVARIANTS AcceptedOnly Decides
CHECK_DEADLOCK FALSE
