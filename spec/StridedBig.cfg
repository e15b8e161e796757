SPECIFICATION Spec
CONSTANTS Roots <- BigRoots
          MaxRank = 3
          All = FALSE
VIEW Seen
INVARIANTS Refines InStorage ContiguousIs OffsetInside Reached
CHECK_DEADLOCK FALSE
