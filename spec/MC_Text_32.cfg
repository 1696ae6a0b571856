SPECIFICATION Spec
INVARIANT RoundTrips
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "32"
  N = 2
  Sample = 1
