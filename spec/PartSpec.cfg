INIT Init
NEXT Next
CONSTANT MaxN = 5
INVARIANT ForestRepresents
CHECK_DEADLOCK FALSE
