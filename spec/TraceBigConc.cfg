SPECIFICATION TraceSpec
CONSTANTS
  NAdd <- BigAdd
  NSub <- BigSub
  NLe <- BigLe
  NFits <- BigFits
  NZero <- BigZero
  NOne <- BigOne
  SEQ = FALSE
INVARIANT Report
CONSTRAINT Open
CHECK_DEADLOCK FALSE
