CONSTANTS
    MaxOps = 3
    Sample = 200
    Slots = {"uni", "ua"}
SPECIFICATION Spec
INVARIANTS Valid NoLeaks OwnersLive Emit
CHECK_DEADLOCK FALSE
