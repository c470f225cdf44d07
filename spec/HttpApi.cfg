CONSTANTS
  Bugs = {"none"}
  MaxDev = 2
  List = FALSE
SPECIFICATION Spec
INVARIANTS Correct Clean
CHECK_DEADLOCK FALSE
