CONSTANTS
  NC = 2
  NP = 2
  NR = 1
  Bugs = {"starve"}
SPECIFICATION Spec
INVARIANT Sound
PROPERTY Refreshed
CHECK_DEADLOCK FALSE
