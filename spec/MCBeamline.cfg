SPECIFICATION Spec
CONSTANTS N = 3
INVARIANTS SameResult Gapless TimeOrdered
CHECK_DEADLOCK FALSE
