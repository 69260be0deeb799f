INIT Init
NEXT Next
CONSTANTS Objs = {1}
 MaxN = 3
 MaxE = 3
INVARIANT Consistent
INVARIANT Reaches
CHECK_DEADLOCK FALSE
