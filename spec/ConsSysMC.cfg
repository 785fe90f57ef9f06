SPECIFICATION Spec
INVARIANTS Inv FirstUnsat
PROPERTY Kept
CHECK_DEADLOCK FALSE
