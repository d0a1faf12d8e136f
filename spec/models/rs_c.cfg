SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Sane
CHECK_DEADLOCK FALSE
CONSTANTS
  SLOTS <- FrFrFr
  NH = 1
  LATER = FALSE
  DROPH = FALSE
  HUP = FALSE
  FLT = FALSE
  TWO = FALSE
  DIRS <- R
