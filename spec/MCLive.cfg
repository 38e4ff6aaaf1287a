SPECIFICATION MCSpec
CONSTANTS
  NAdd <- IntAdd
  NSub <- IntSub
  NLe <- IntLe
  NFits <- IntFits
  NZero <- Zero
  NOne <- One
  SEQ = FALSE
INVARIANTS TypeOK
PROPERTIES CallsReturn ActionsRun
CONSTRAINT Bound
