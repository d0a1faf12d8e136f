SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Sane
CHECK_DEADLOCK FALSE
CONSTANTS
  NT = 2
  AFTER <- A1
  PER <- Empty
  OVER = FALSE
  TWO = FALSE
  MAXQ = 4
