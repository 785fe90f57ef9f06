SPECIFICATION Spec
CONSTANT Depth = 6
INVARIANTS Sound Complete TypeInv
CHECK_DEADLOCK FALSE
