SPECIFICATION Spec
INVARIANT AlwaysSatisfied
CHECK_DEADLOCK FALSE
