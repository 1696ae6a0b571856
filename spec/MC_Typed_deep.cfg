SPECIFICATION Spec
INVARIANTS Denotes Returns Judged
CHECK_DEADLOCK FALSE
CONSTANTS
  Deep = TRUE
