SPECIFICATION FairSpec
CONSTANTS
  NP = 1
  CALLS <- Seq2
  ITEMS <- IP
  NE = 1
  MAXW = 1
  NSL = 1
  BUSY <- NoBusy
  BUG = "none"
INVARIANT Contract
INVARIANT OneDriver
PROPERTIES Delivered Polled
CHECK_DEADLOCK FALSE
