SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Sane
CHECK_DEADLOCK FALSE
CONSTANTS
  NT = 1
  AFTER <- A02
  PER <- I2
  OVER = TRUE
  TWO = TRUE
  MAXQ = 4
