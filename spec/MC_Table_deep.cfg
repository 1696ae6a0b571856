SPECIFICATION Spec
INVARIANTS IsMap Apart
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 5
  Slack = 2
  Sample = 100
