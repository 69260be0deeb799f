SPECIFICATION Spec
CONSTANT N = 2
INVARIANT Agree
CHECK_DEADLOCK FALSE
