CONSTANTS
    N = 3
    MaxKids = 2
    MaxRoot = 2
    MaxOps = 2
    Sample = 16
SPECIFICATION Spec
INVARIANTS Right Fresh Emit
CHECK_DEADLOCK FALSE
