CONSTANTS MaxEls = 4
SPECIFICATION Spec
INVARIANTS Inside RampOK Self
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
