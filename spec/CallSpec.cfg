INIT CInit
NEXT CNext
INVARIANT AtMostOne
CHECK_DEADLOCK FALSE
