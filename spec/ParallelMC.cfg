SPECIFICATION Spec
CONSTANTS
  P = 97
  Workers = 3
  Identity <- Ident
  Draw <- Drawing
INVARIANTS TypeOK Deterministic
CHECK_DEADLOCK FALSE
