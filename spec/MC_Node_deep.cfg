SPECIFICATION Spec
CONSTANTS N = 5 Sample = 60
INVARIANTS Represents OneParent Emit
VIEW View
CHECK_DEADLOCK FALSE
