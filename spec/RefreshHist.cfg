CONSTANTS
  NS = 3
  NV = 3
  Len_ = 14
  Bugs = {"none"}
SPECIFICATION Spec
INVARIANT LikeFresh
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Shape
INVARIANT ShowHist
