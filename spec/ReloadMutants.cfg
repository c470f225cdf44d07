CONSTANTS
  NC = 2
  NP = 2
  NR = 1
  Bugs = {"free", "barge", "leave", "early", "again"}
SPECIFICATION Spec
INVARIANT Caught
CONSTRAINT Unbroken
CHECK_DEADLOCK FALSE
