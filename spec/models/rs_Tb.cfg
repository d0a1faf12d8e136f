SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Sane
CHECK_DEADLOCK FALSE
CONSTANTS
  NT = 1
  AFTER <- A12
  PER <- I1
  OVER = TRUE
  TWO = TRUE
  MAXQ = 4
