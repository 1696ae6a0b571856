CONSTANTS
    N = 2
    MaxKids = 2
    MaxRoot = 3
    MaxOps = 3
    Sample = 4
SPECIFICATION Spec
INVARIANTS Right Fresh Emit
CHECK_DEADLOCK FALSE
