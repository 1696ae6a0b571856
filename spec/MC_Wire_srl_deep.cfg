SPECIFICATION Spec
CONSTANTS Fmt = "srl"
 Size = 2
INVARIANTS Denotes PrefixFree Emit
CHECK_DEADLOCK FALSE
