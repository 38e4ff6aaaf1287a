SPECIFICATION MCSpec
CONSTANTS
  NAdd <- IntAdd
  NSub <- IntSub
  NLe <- IntLe
  NFits <- IntFits
  NZero <- Zero
  NOne <- One
  SEQ = FALSE
INVARIANTS TypeOK Conservation NonNegative ExactlyOnce Fifo SyncHolds NoGhosts OffIsOff DeadIsDead RoundTrip
PROPERTIES FiresWithTokens FiresWithConds FiresWhenAllowed OnlyMovesAndIncs OffDoesNothing EndsQuiet QuietTick SlowCondHolds RunChange FailsClean RefusedClean
CONSTRAINT Bound
