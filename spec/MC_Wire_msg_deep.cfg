SPECIFICATION Spec
CONSTANTS Fmt = "msg"
 Size = 2
INVARIANTS Denotes PrefixFree Emit
CHECK_DEADLOCK FALSE
