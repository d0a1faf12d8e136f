SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Sane
CHECK_DEADLOCK FALSE
CONSTANTS
  SLOTS <- PrFw
  NH = 1
  LATER = FALSE
  DROPH = FALSE
  HUP = FALSE
  FLT = TRUE
  TWO = FALSE
  DIRS <- RW
