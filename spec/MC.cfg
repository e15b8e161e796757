SPECIFICATION Spec
INVARIANTS TypeOK ThrowsChangeNothing GradientsAreDerivatives
PROPERTIES OnlyIAddWrites OnlyBackwardGrads Immutable
CHECK_DEADLOCK FALSE
