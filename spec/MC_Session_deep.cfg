CONSTANTS
    MaxOps = 4
    Sample = 800
    Parsers = {1}
SPECIFICATION Spec
INVARIANTS Good Idle Emit
PROPERTIES Kept
CHECK_DEADLOCK FALSE
