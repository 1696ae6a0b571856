SPECIFICATION Spec
CONSTANTS Fmt = "srl"
 Size = 1
INVARIANTS Denotes PrefixFree Emit
CHECK_DEADLOCK FALSE
