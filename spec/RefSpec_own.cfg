INIT RInit
NEXT ONext
CONSTANTS NSlots = 3
 MaxObj = 4
INVARIANT OwnOK
CHECK_DEADLOCK FALSE
