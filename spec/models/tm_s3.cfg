SPECIFICATION Spec
CONSTANTS
  NT = 1
  TMAX = 3
  CAP = 1
  NW = 1
  OPS = 3
  PER = TRUE
  BUG = "none"
INVARIANT Contract
CHECK_DEADLOCK FALSE
