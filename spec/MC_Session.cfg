CONSTANTS
    MaxOps = 3
    Sample = 20
    Parsers = {1, 2}
SPECIFICATION Spec
INVARIANTS Good Idle Emit
PROPERTIES Kept
CHECK_DEADLOCK FALSE
