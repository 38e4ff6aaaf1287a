SPECIFICATION MCSpec
INVARIANTS InOrder OneAtATime
PROPERTIES PausedIsQuiet DeactWaits CallsReturn JobsRun
CONSTRAINT Bound
