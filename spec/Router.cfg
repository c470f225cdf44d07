CONSTANTS
  NT = 2
  NP = 3
  MaxFaults = 4
  Names = {"refuse", "drop", "notjson", "fewer", "odd", "status"}
  Len_ = 0
  Bugs = {"none"}
SPECIFICATION Spec
VIEW view
INVARIANT Degrades
CHECK_DEADLOCK FALSE
