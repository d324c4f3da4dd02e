SPECIFICATION Spec
INVARIANT Positive
PROPERTIES SameQuantity RoundTrip ZeroIsZero
CHECK_DEADLOCK FALSE
