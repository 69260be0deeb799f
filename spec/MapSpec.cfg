INIT Init
NEXT Next
CONSTANTS Objs = {1, 2}
 Keys = {1, 2, 3}
 Vals = {0, 1}
INVARIANT TypeOK
PROPERTY Frame
CHECK_DEADLOCK FALSE
