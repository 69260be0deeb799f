INIT Init
NEXT Next
CONSTANTS
 Threads = {t1, t2, t3}
 Budget = 1
 Sizes = {1, 3}
 Buckets = {1, 2, 3, 4, 5, 6}
 Cap0 = 2
INVARIANTS NoOverlap InBucket Recycled
