CONSTANTS
  NS = 2
  NV = 3
  Len_ = 0
  Bugs = {"none", "keep", "keepall", "keepone", "onlyscen", "noscen", "append", "order", "status"}
SPECIFICATION Spec
VIEW view
INVARIANT LikeFresh
INVARIANT Caught
CHECK_DEADLOCK FALSE
CONSTRAINT Unbroken
