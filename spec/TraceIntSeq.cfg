SPECIFICATION TraceSpec
CONSTANTS
  NAdd <- IntAdd
  NSub <- IntSub
  NLe <- IntLe
  NFits <- IntFits
  NZero <- Zero
  NOne <- One
  SEQ = TRUE
INVARIANT Report
CONSTRAINT Open
CHECK_DEADLOCK FALSE
