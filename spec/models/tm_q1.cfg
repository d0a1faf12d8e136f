SPECIFICATION Spec
CONSTANTS
  NT = 1
  TMAX = 3
  CAP = 2
  NW = 2
  OPS = 4
  PER = FALSE
  BUG = "none"
INVARIANT Contract
CHECK_DEADLOCK FALSE
