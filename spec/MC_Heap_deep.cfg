SPECIFICATION Spec
INVARIANTS Apart Within
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 5
  MaxCap = 8
  Sample = 100
