SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Sane
CHECK_DEADLOCK FALSE
CONSTANTS
  SLOTS <- PrFr
  NH = 1
  LATER = FALSE
  DROPH = TRUE
  HUP = FALSE
  FLT = FALSE
  TWO = FALSE
  DIRS <- R
