CONSTANTS N = 3 R = 1
SPECIFICATION Spec
INVARIANTS Positive Laws Stored
CHECK_DEADLOCK FALSE
