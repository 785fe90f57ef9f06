SPECIFICATION Spec
INVARIANTS Agree Sound Complete Needed Bound Order
CHECK_DEADLOCK FALSE
