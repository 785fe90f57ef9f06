SPECIFICATION Spec
INVARIANTS FramedBinds
CHECK_DEADLOCK FALSE
