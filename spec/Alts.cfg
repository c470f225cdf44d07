SPECIFICATION Spec
CONSTANTS NL = 3 NJ = 3 Rides = 2 Wide = {49, 50, 51, 52} Most = 200 Cap = 50
  Bugs = {"none", "fewer", "lastonly", "again", "cap", "nocap", "base", "giveup", "front"}
INVARIANTS Correct Told
PROPERTIES Ends
CHECK_DEADLOCK FALSE
