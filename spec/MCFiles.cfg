CONSTANTS Depth = 2
SPECIFICATION Spec
INVARIANTS Decided Centred Ambiguous
CHECK_DEADLOCK FALSE
