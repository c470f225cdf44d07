CONSTANTS
  NT = 1
  NP = 4
  MaxFaults = 100
  Names = {"refuse", "drop", "reset", "cuthead", "cutbody", "cutchunk", "status", "cutlen", "cutopen", "empty", "notjson", "nodurations", "null", "fewer", "nulldist", "odd"}
  Len_ = 30
  Bugs = {"none"}
SPECIFICATION Spec
INVARIANT Degrades
INVARIANT ShowHist
ACTION_CONSTRAINT Shape
CHECK_DEADLOCK FALSE
