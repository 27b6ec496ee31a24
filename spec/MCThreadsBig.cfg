SPECIFICATION Spec
CONSTANTS N = 5 Cells = 4 Team = 4
INVARIANTS Result
PROPERTY Ends
CHECK_DEADLOCK FALSE
