SPECIFICATION FairSpec
CONSTANTS
  NP = 2
  CALLS <- Two
  ITEMS <- I1
  NE = 0
  MAXW = 0
  NSL = 1
  BUSY <- Busy2
  BUG = "none"
INVARIANT Contract
INVARIANT OneDriver
PROPERTIES Delivered Polled Returned
CHECK_DEADLOCK FALSE
