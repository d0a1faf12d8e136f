SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Sane
CHECK_DEADLOCK FALSE
CONSTANTS
  SLOTS <- P1P2
  NH = 2
  LATER = TRUE
  DROPH = TRUE
  HUP = FALSE
  FLT = FALSE
  TWO = FALSE
  DIRS <- R
