SPECIFICATION Spec
CONSTANTS
  NT = 1
  TMAX = 2
  CAP = 1
  NW = 2
  OPS = 3
  PER = FALSE
  BUG = "none"
INVARIANT Contract
CHECK_DEADLOCK FALSE
