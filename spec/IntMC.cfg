INIT Init
NEXT Next
CONSTANT Step = 1013
INVARIANTS Arith Div Root Logs Dates Hash
CHECK_DEADLOCK FALSE
