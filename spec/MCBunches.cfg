SPECIFICATION Spec
CONSTANTS MAXOBJ = 4
          MAXVAL = 5
INVARIANTS NoSharing Observed
CHECK_DEADLOCK FALSE
