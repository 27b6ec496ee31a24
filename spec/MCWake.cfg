CONSTANTS N = 4 Q = 1
SPECIFICATION Spec
INVARIANTS Accepted Teeth
CHECK_DEADLOCK FALSE
