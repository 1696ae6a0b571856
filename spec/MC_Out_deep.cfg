SPECIFICATION Spec
CONSTANTS
 K = 4
 Sizes = {1, 3, 4, 6}
 Reserve = 2
 Old = 3
 MaxOps = 8
 MaxOpen = 3
INVARIANTS Right Position Fits Emit
CHECK_DEADLOCK FALSE
