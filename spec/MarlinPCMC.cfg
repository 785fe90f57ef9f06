SPECIFICATION Spec
CONSTANTS
  P = 7
  SD = 2
  COEF = {0, 1, 3, 6}
  BETAS = {3, 5}
  BLIND <- Blinds
INVARIANTS Honest Sound DegreeBound
CHECK_DEADLOCK FALSE
