SPECIFICATION HSpec
CONSTANTS Bugs = {"none"} MaxFaults = 2 Turns = 4
INVARIANTS Shown
CHECK_DEADLOCK FALSE
