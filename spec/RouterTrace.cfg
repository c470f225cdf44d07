CONSTANTS
  NT = 2
  NP = 4
  MaxFaults = 100
  Names = {"drop"}
  Len_ = 0
  Bugs = {"none"}
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
