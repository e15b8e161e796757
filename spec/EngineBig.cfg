SPECIFICATION Spec
CONSTANTS Leaves = 2
          Nodes = 6
          Passes = 1
          ResetCounters = FALSE
          AllFlags = TRUE
          Emit = FALSE
INVARIANTS InOrder Complete Right Clean
CHECK_DEADLOCK FALSE
