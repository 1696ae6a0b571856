SPECIFICATION Spec
CONSTANTS Fmt = "json"
 Size = 2
INVARIANTS Denotes PrefixFree Emit
CHECK_DEADLOCK FALSE
