INIT Init
NEXT Next
CONSTANTS
 Threads = {t1, t2, t3}
 Budget = 2
 Sizes = {1, 2}
 Init0 = 2
INVARIANTS NoOverlap All Bounded
