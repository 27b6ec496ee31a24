SPECIFICATION Spec
INVARIANTS Learned LearnOK Centre Twiss
CHECK_DEADLOCK FALSE
