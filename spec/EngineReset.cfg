SPECIFICATION Spec
CONSTANTS Leaves = 2
          Nodes = 5
          Passes = 3
          ResetCounters = TRUE
          AllFlags = FALSE
          Emit = FALSE
INVARIANTS InOrder Complete Right Clean
CHECK_DEADLOCK FALSE
