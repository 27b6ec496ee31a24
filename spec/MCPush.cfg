SPECIFICATION Spec
INVARIANTS OnShell Undo NoWork Selector TabOK
CHECK_DEADLOCK FALSE
