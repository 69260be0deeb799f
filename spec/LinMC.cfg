SPECIFICATION Spec
CONSTANT D = 2
INVARIANT Laws
CHECK_DEADLOCK FALSE
