CONSTANTS
  Bugs = {"none", "status", "code", "swap", "unready", "sticky", "default", "swallow", "hollow", "fallback", "uuid", "zero", "lax", "negative", "echo", "echotime", "stickyname", "always"}
  MaxDev = 1
  List = FALSE
SPECIFICATION Spec
INVARIANTS Correct Clean Caught
CHECK_DEADLOCK FALSE
