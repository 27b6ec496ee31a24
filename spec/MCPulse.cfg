CONSTANTS MaxPulses = 7
SPECIFICATION Spec
INVARIANTS Homogeneous Additive
PROPERTY Kept
CHECK_DEADLOCK FALSE
