SPECIFICATION Spec
CONSTANT XS = {0, 3}
INVARIANTS Injective OnShell TablesOK
CHECK_DEADLOCK FALSE
