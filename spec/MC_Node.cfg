SPECIFICATION Spec
CONSTANTS N = 4 Sample = 1
INVARIANTS Represents OneParent Emit
VIEW View
CHECK_DEADLOCK FALSE
