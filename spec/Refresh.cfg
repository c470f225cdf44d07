CONSTANTS
  NS = 2
  NV = 3
  Len_ = 0
  Bugs = {"none"}
SPECIFICATION Spec
VIEW view
INVARIANT LikeFresh
CHECK_DEADLOCK FALSE
