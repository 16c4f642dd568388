SPECIFICATION Spec
INVARIANT Sound
INVARIANT NeverStuck
CHECK_DEADLOCK FALSE
