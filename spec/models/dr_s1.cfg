SPECIFICATION Spec
CONSTANTS
  NP = 1
  CALLS <- One
  ITEMS <- I1
  NE = 1
  MAXW = 2
  NSL = 1
  BUSY <- NoBusy
  BUG = "none"
INVARIANT Contract
INVARIANT OneDriver

CHECK_DEADLOCK FALSE
