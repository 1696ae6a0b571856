SPECIFICATION Spec
INVARIANTS SameOutcome InOrder
CONSTRAINT Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxItems = 3
  MaxSub = 1
  MaxReqs = 2
  Sample = 10
