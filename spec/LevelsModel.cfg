SPECIFICATION Spec
CONSTANTS
  Ranks = {r1, r2, r3}
  NMax = 6
  MaxL = 5
  Vote = TRUE
INVARIANTS Agree OutOnce Alive InLimits Determined Few
PROPERTY Ends
CHECK_DEADLOCK FALSE
