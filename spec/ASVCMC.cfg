SPECIFICATION Spec
CONSTANTS
  P = 13
  N = 4
  OM = 5
  TAUS = {2, 3, 6}
  DELTAS = {1, 7}
INVARIANTS Good Fresh Sound
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
