INIT RInit
NEXT RNext
CONSTANTS NSlots = 2
 MaxObj = 3
INVARIANT RefOK
CHECK_DEADLOCK FALSE
