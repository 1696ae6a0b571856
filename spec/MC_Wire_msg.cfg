SPECIFICATION Spec
CONSTANTS Fmt = "msg"
 Size = 1
INVARIANTS Denotes PrefixFree Emit
CHECK_DEADLOCK FALSE
