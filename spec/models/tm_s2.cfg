SPECIFICATION Spec
CONSTANTS
  NT = 2
  TMAX = 1
  CAP = 1
  NW = 1
  OPS = 2
  PER = FALSE
  BUG = "none"
INVARIANT Contract
CHECK_DEADLOCK FALSE
