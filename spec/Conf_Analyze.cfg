SPECIFICATION Spec
INVARIANT Report
INVARIANT Sane
INVARIANT Skipped
CHECK_DEADLOCK FALSE
