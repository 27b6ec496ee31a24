CONSTANTS P = 3
          N = 4
SPECIFICATION Spec
INVARIANT Solved
CHECK_DEADLOCK FALSE
