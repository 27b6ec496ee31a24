CONSTANTS Depth = 4
SPECIFICATION Spec
INVARIANTS Decided Centred Ambiguous
CHECK_DEADLOCK FALSE
