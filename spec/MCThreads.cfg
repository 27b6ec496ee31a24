SPECIFICATION Spec
CONSTANTS N = 4 Cells = 4 Team = 3
INVARIANTS Result
PROPERTY Ends
CHECK_DEADLOCK FALSE
