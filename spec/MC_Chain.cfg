SPECIFICATION Spec
INVARIANT EndToEnd
PROPERTY Settles
CHECK_DEADLOCK FALSE
