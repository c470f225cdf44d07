CONSTANTS
  NQ = 2
  NS = 2
  Schedules = FALSE
  Bugs = {"none", "key", "borrow", "scratch", "swap", "reread", "forget", "tornread", "tornwrite"}
SPECIFICATION Spec
INVARIANT Sound
INVARIANT Caught
CHECK_DEADLOCK FALSE
