SPECIFICATION Spec
CONSTANT MaxN = 5
INVARIANTS Sound Foreign
CHECK_DEADLOCK FALSE
