CONSTANTS P = 3
          N = 3
SPECIFICATION Spec
INVARIANT Solved
CHECK_DEADLOCK FALSE
