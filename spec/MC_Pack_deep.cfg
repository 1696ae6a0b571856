CONSTANTS
    N = 4
    MaxAsks = 4
    Kinds = {"v", "c"}
SPECIFICATION Spec
INVARIANTS Outcome Account Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
