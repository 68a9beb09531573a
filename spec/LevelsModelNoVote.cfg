SPECIFICATION Spec
CONSTANTS
  Ranks = {r1, r2, r3}
  NMax = 6
  MaxL = 5
  Vote = FALSE
INVARIANTS Agree OutOnce Alive InLimits Determined Few

CHECK_DEADLOCK FALSE
