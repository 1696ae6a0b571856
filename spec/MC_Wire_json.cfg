SPECIFICATION Spec
CONSTANTS Fmt = "json"
 Size = 1
INVARIANTS Denotes PrefixFree Emit
CHECK_DEADLOCK FALSE
