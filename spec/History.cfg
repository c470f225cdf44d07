SPECIFICATION Spec
INVARIANT OneKept
CHECK_DEADLOCK FALSE
