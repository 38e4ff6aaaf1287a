SPECIFICATION FSpec
CONSTANTS
  NAdd <- FAdd
  NSub <- FSub
  NLe <- FLe
  NFits <- FFits
  NZero = 0
  NOne = 1
  SEQ = TRUE
INVARIANT Final
CHECK_DEADLOCK FALSE
