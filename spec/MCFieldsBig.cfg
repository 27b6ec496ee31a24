SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS Sum Order Tab
CHECK_DEADLOCK FALSE
