CONSTANTS
  NQ = 3
  NS = 3
  Schedules = TRUE
  Bugs = {"none"}
SPECIFICATION Spec
INVARIANT Sound
CHECK_DEADLOCK FALSE
