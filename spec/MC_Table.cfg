SPECIFICATION Spec
INVARIANTS IsMap Apart
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  Slack = 2
  Sample = 10
