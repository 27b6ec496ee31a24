SPECIFICATION Spec
CONSTANT MaxLen = 2
INVARIANTS Sum Order Tab
CHECK_DEADLOCK FALSE
