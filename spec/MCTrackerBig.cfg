SPECIFICATION Spec
CONSTANTS LEN = 6
 DTS = {2, 9}
 FDTS = {2, 4}
 NOUTS = {0, 2, 3}
 MAXB = 2
 MAXF = 2
INVARIANTS TypeOK Causal FieldsBehind OutputsOrdered OutputsNeutral Complete EvenNeverLarger NotStuck
PROPERTY Terminates
CHECK_DEADLOCK FALSE
