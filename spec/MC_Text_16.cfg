SPECIFICATION Spec
INVARIANT RoundTrips
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "16"
  N = 3
  Sample = 1
