SPECIFICATION Spec
CONSTANTS
  Limit = 128
  Base = 126
  N = 6
INVARIANTS Exact Emit
CHECK_DEADLOCK FALSE
