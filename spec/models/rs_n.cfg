SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Sane
CHECK_DEADLOCK FALSE
CONSTANTS
  SLOTS <- F1
  NH = 1
  LATER = FALSE
  DROPH = TRUE
  HUP = TRUE
  FLT = FALSE
  TWO = TRUE
  DIRS <- R
