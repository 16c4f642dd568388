SPECIFICATION Spec
CONSTANTS N = 3
          D = 2
INVARIANTS Exact Goal Sound Once
CHECK_DEADLOCK FALSE
