SPECIFICATION Spec
INVARIANT RoundTrips
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "8"
  N = 3
  Sample = 4
