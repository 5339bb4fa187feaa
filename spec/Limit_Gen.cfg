SPECIFICATION Spec
CONSTANTS Depth = 10
INVARIANT Emit
CHECK_DEADLOCK FALSE
