SPECIFICATION Spec
CONSTANTS Leaves = 2
          Nodes = 5
          Passes = 1
          ResetCounters = FALSE
          AllFlags = FALSE
          Emit = TRUE
INVARIANTS InOrder Complete Right Clean
CHECK_DEADLOCK FALSE
