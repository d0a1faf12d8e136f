SPECIFICATION Spec
CONSTANTS
  NP = 2
  CALLS <- Two
  ITEMS <- I1
  NE = 1
  MAXW = 1
  NSL = 1
  BUSY <- NoBusy
  BUG = "none"
INVARIANT Contract
INVARIANT OneDriver

CHECK_DEADLOCK FALSE
