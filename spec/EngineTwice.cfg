SPECIFICATION Spec
CONSTANTS Leaves = 2
          Nodes = 4
          Passes = 2
          ResetCounters = FALSE
          AllFlags = FALSE
          Emit = FALSE
INVARIANTS InOrder Complete Right Clean
CHECK_DEADLOCK FALSE
