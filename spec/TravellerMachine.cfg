SPECIFICATION Spec
CONSTANTS First = 1 Upto = 300
VIEW View
INVARIANTS ForwardSame BackwardSame
CHECK_DEADLOCK FALSE
