INIT Init
NEXT Next
CONSTANTS Objs = {1, 2}
 Vals = {1, 2}
 MaxLen = 3
CONSTRAINT Bound
INVARIANTS TypeOK LifetimesBalance
CHECK_DEADLOCK FALSE
