CONSTANTS Depth = 3
SPECIFICATION Spec
INVARIANTS AreaX Stays EnergyKept Splits Undone Closes
CHECK_DEADLOCK FALSE
