CONSTANTS
  NS = 3
  NV = 3
  Len_ = 0
  Bugs = {"none"}
SPECIFICATION TraceSpec
INVARIANT LikeFresh
CHECK_DEADLOCK FALSE
