CONSTANTS Depth = 4
SPECIFICATION Spec
INVARIANTS Propagated Consistent FirstIsFirst
PROPERTIES OneGrid Monotone Finishes
CHECK_DEADLOCK FALSE
