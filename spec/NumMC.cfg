SPECIFICATION Spec
CONSTANT D = 2
INVARIANT Rules
CHECK_DEADLOCK FALSE
