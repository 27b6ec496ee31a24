CONSTANTS N = 3 R = 2
SPECIFICATION Spec
INVARIANTS Positive Laws Stored
CHECK_DEADLOCK FALSE
