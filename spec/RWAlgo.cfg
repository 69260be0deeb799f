INIT Init
NEXT Next
CONSTANTS
 Threads = {t1, t2, t3}
 Budget = 2
INVARIANTS Exclusive Quiet Counted
