SPECIFICATION Spec
INVARIANT Unambiguous
INVARIANT Tight
CHECK_DEADLOCK FALSE
