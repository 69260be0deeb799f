INIT Init
NEXT Next
CONSTANTS Objs = {1, 2}
 Vals = {1, 2}
 MaxLen = 3
 Kind = "stack"
CONSTRAINT Bound
INVARIANTS TypeOK LifetimesBalance CapBound
CHECK_DEADLOCK FALSE
