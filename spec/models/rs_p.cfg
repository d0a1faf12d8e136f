SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Sane
CHECK_DEADLOCK FALSE
CONSTANTS
  SLOTS <- PrFr
  NH = 1
  LATER = FALSE
  DROPH = FALSE
  HUP = FALSE
  FLT = TRUE
  TWO = FALSE
  DIRS <- R
