SPECIFICATION Spec
CONSTANTS
 F = 17
 Chunk = 4
 Margin = 1
 MaxN = 7
 MaxOps = 4
INVARIANTS Aligned Right Ordered AtEnd Emit
CHECK_DEADLOCK FALSE
