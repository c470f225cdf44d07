SPECIFICATION Spec
CONSTANTS First = 1 Upto = 3000 Bugs = {"none"}
VIEW View
INVARIANTS Correct Told
CHECK_DEADLOCK FALSE
