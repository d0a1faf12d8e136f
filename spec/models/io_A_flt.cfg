SPECIFICATION Spec
CONSTANTS
  SLOTS <- SlotsA
  NH = 1
  FLT = TRUE
  HUP = FALSE
  TWO = FALSE
  BUG = "none"
INVARIANT Contract
CHECK_DEADLOCK FALSE
