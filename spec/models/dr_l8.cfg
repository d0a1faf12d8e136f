SPECIFICATION FairSpec
CONSTANTS
  NP = 2
  CALLS <- Two
  ITEMS <- IPP
  NE = 0
  MAXW = 0
  NSL = 1
  BUSY <- Busy1
  BUG = "none"
INVARIANT Contract
INVARIANT OneDriver
PROPERTIES Delivered
CHECK_DEADLOCK FALSE
