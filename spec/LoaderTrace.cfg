SPECIFICATION TraceSpec
CONSTANTS Bugs = {"none"} MaxFaults = 1 Turns = 1
CHECK_DEADLOCK FALSE
