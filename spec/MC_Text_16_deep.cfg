SPECIFICATION Spec
INVARIANT RoundTrips
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "16"
  N = 4
  Sample = 1
