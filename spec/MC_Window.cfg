SPECIFICATION Spec
CONSTANTS
 F = 11
 Chunk = 4
 Margin = 1
 MaxN = 6
 MaxOps = 3
INVARIANTS Aligned Right Ordered AtEnd Emit
CHECK_DEADLOCK FALSE
