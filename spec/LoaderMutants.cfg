SPECIFICATION Spec
CONSTANTS Bugs = {"uncaught", "dangling", "nocheck", "stopline", "loseall", "append", "misname", "stale", "somereq", "nocascade", "keepold", "enoent"} MaxFaults = 1 Turns = 1
INVARIANTS Caught
CONSTRAINT Unseen
CHECK_DEADLOCK FALSE
