SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
          MaxOps = 2
          Shared = {}
INVARIANTS Own Emit
PROPERTIES Apart
CHECK_DEADLOCK FALSE
