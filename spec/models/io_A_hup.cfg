SPECIFICATION Spec
CONSTANTS
  SLOTS <- SlotsA
  NH = 1
  FLT = FALSE
  HUP = TRUE
  TWO = FALSE
  BUG = "none"
INVARIANT Contract
CHECK_DEADLOCK FALSE
