CONSTANTS
  NQ = 3
  NS = 3
  Schedules = FALSE
  Bugs = {"none"}
SPECIFICATION TraceSpec
INVARIANT Sound
CHECK_DEADLOCK FALSE
