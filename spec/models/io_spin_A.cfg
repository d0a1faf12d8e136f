SPECIFICATION Spec
CONSTANTS
  SPIN <- On
  SPINS <- Three
  SLOTS <- SlotsA
  NH = 1
  FLT = FALSE
  HUP = FALSE
  TWO = FALSE
  BUG = "none"
INVARIANT Contract
CHECK_DEADLOCK FALSE
