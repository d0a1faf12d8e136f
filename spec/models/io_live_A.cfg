SPECIFICATION FairSpec
CONSTANTS
  SLOTS <- SlotsA
  NH = 1
  FLT = FALSE
  HUP = FALSE
  TWO = FALSE
  BUG = "none"
INVARIANT Contract
PROPERTIES Served
CHECK_DEADLOCK FALSE
