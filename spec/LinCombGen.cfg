SPECIFICATION Spec
INVARIANT TypeOK
PROPERTY Homomorphic
CHECK_DEADLOCK FALSE
