INIT Init
NEXT Next
CONSTANTS Base = 4
 BitsPer = 2
 Threads = {t1, t2, t3}
 Rounds = 2
INVARIANT NoLost
CHECK_DEADLOCK FALSE
