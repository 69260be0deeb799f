INIT Init
NEXT Next
CONSTANT B = 9
INVARIANT AlgOK
CHECK_DEADLOCK FALSE
