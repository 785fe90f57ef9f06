SPECIFICATION Spec
INVARIANTS RoundTrip Streams Injective
CHECK_DEADLOCK FALSE
