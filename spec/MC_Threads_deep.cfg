SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
          MaxOps = 3
          Shared = {}
INVARIANTS Own Emit
PROPERTIES Apart
CHECK_DEADLOCK FALSE
