SPECIFICATION Spec
INVARIANTS SameOutcome InOrder
CONSTRAINT Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxItems = 2
  MaxSub = 2
  MaxReqs = 2
  Sample = 4
