SPECIFICATION Spec
INVARIANTS AlwaysSatisfied Counts
CHECK_DEADLOCK FALSE
