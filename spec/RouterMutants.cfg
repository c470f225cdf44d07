CONSTANTS
  NT = 2
  NP = 2
  MaxFaults = 3
  Names = {"refuse", "drop", "notjson", "fewer", "odd", "status"}
  Len_ = 0
  Bugs = {"none", "die", "part", "sticky", "memo", "stale", "leak", "swallow", "keepbad", "global"}
SPECIFICATION Spec
VIEW view
INVARIANT Degrades
INVARIANT Caught
CONSTRAINT Unbroken
CHECK_DEADLOCK FALSE
