SPECIFICATION Spec
INVARIANTS Binding Shifting
CHECK_DEADLOCK FALSE
