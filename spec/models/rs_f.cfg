SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Sane
CHECK_DEADLOCK FALSE
CONSTANTS
  SLOTS <- PrPw
  NH = 1
  LATER = FALSE
  DROPH = FALSE
  HUP = TRUE
  FLT = FALSE
  TWO = FALSE
  DIRS <- RW
