SPECIFICATION FairSpec
CONSTANTS
  NP = 1
  CALLS <- One
  ITEMS <- I1
  NE = 1
  MAXW = 1
  NSL = 1
  BUSY <- NoBusy
  BUG = "none"
INVARIANT Contract
INVARIANT OneDriver
PROPERTIES Polled Returned Delivered
CHECK_DEADLOCK FALSE
