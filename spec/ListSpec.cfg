INIT Init
NEXT Next
CONSTANTS Objs = {1, 2}
 Ids = {1, 2, 3}
 Vals = {1, 2}
 MaxLen = 3
CONSTRAINT Bound
INVARIANTS UniqueHandles NeighboursAgree SearchSound
CHECK_DEADLOCK FALSE
