CONSTANTS
  Bugs = {"none"}
  MaxDev = 0
  List = FALSE
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
