SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Sane
CHECK_DEADLOCK FALSE
CONSTANTS
  NT = 1
  AFTER <- A12
  PER <- Empty
  OVER = FALSE
  TWO = TRUE
  MAXQ = 4
