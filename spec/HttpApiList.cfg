CONSTANTS
  Bugs = {"none"}
  MaxDev = 2
  List = TRUE
SPECIFICATION Spec
INVARIANTS Correct Clean
CHECK_DEADLOCK FALSE
