SPECIFICATION Spec
INVARIANTS Report TypeInv
CHECK_DEADLOCK FALSE
