CONSTANTS
  NC = 3
  NP = 3
  NR = 2
  Bugs = {"none"}
SPECIFICATION Spec
INVARIANT Sound
PROPERTY Refreshed
PROPERTY Answered
CHECK_DEADLOCK FALSE
