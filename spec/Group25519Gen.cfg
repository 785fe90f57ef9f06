SPECIFICATION Spec
INVARIANTS TypeOK Laws
CHECK_DEADLOCK FALSE
