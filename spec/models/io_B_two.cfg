SPECIFICATION Spec
CONSTANTS
  SLOTS <- SlotsB
  NH = 1
  FLT = FALSE
  HUP = FALSE
  TWO = TRUE
  BUG = "none"
INVARIANT Contract
CHECK_DEADLOCK FALSE
