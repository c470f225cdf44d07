SPECIFICATION Spec
CONSTANTS First = 1 Upto = 1 Bugs = {"none"}
VIEW View
INVARIANTS Correct Told Shown
CHECK_DEADLOCK FALSE
