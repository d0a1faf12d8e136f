SPECIFICATION Spec
CONSTANTS
  SLOTS <- SlotsE
  NH = 2
  FLT = FALSE
  HUP = FALSE
  TWO = FALSE
  BUG = "none"
INVARIANT Contract
CHECK_DEADLOCK FALSE
