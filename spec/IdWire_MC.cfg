SPECIFICATION Spec
CONSTANT MaxList = 2
INVARIANT Survives
CHECK_DEADLOCK FALSE
