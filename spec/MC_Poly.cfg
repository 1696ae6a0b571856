CONSTANTS
    MaxOps = 2
    Sample = 12
    Slots = {"raw", "uni", "ua", "oth"}
SPECIFICATION Spec
INVARIANTS Valid NoLeaks OwnersLive Emit
CHECK_DEADLOCK FALSE
