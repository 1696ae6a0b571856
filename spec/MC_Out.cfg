SPECIFICATION Spec
CONSTANTS
 K = 4
 Sizes = {1, 2, 4, 5}
 Reserve = 2
 Old = 3
 MaxOps = 6
 MaxOpen = 2
INVARIANTS Right Position Fits Emit
CHECK_DEADLOCK FALSE
