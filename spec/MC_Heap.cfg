SPECIFICATION Spec
INVARIANTS Apart Within
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  MaxCap = 8
  Sample = 8
