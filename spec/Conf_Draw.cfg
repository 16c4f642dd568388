SPECIFICATION Spec
INVARIANT Sound
INVARIANT Report
CHECK_DEADLOCK FALSE
