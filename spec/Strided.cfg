SPECIFICATION Spec
CONSTANTS Roots <- QuickRoots
          MaxRank = 2
          All = FALSE
VIEW Seen
INVARIANTS Refines InStorage ContiguousIs OffsetInside Reached
CHECK_DEADLOCK FALSE
