SPECIFICATION Spec
CONSTANTS Bugs = {"none"} MaxFaults = 1 Turns = 1
INVARIANTS Correct Recovers
CHECK_DEADLOCK FALSE
