SPECIFICATION Spec
CONSTANTS LEN = 6
 DTS = {1, 2, 4, 9}
 FDTS = {2, 3, 4, 7}
 NOUTS = {0, 1, 2, 3}
 MAXB = 1
 MAXF = 1
INVARIANTS TypeOK Causal FieldsBehind OutputsOrdered OutputsNeutral Complete EvenNeverLarger NotStuck
PROPERTY Terminates
CHECK_DEADLOCK FALSE
