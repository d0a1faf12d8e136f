SPECIFICATION Spec
CONSTANTS
  NT = 1
  TMAX = 3
  CAP = 2
  NW = 1
  OPS = 4
  PER = TRUE
  BUG = "none"
INVARIANT Contract
CHECK_DEADLOCK FALSE
