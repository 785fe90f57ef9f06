SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT Layered
CHECK_DEADLOCK FALSE
