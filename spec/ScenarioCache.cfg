CONSTANTS
  NQ = 2
  NS = 2
  Schedules = TRUE
  Bugs = {"none"}
SPECIFICATION Spec
INVARIANT Sound
CHECK_DEADLOCK FALSE
