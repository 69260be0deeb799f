INIT Init
NEXT Next
CONSTANTS Prios = {1, 2, 3}
 MaxLen = 6
 MaxIds = 6
INVARIANTS IsHeap SameItems TopIsMax
CHECK_DEADLOCK FALSE
