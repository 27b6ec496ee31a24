CONSTANTS N = 4 Q = 2
SPECIFICATION Spec
INVARIANTS Accepted Teeth
CHECK_DEADLOCK FALSE
