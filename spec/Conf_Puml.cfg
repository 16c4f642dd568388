SPECIFICATION Spec
INVARIANT Report
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
