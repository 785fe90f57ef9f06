SPECIFICATION Spec
INVARIANTS Report TypeOK
CHECK_DEADLOCK FALSE
