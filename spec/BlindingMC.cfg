SPECIFICATION Spec
CONSTANTS
  P <- Prime
  R <- Height
  K <- Width
INVARIANTS Criterion Combinations RankRight
CHECK_DEADLOCK FALSE
