INIT Init
NEXT Next
CONSTANTS
 Threads = {t1, t2}
 Budget = 2
 Sizes = {1, 3}
 Buckets = {1, 2, 3, 4, 5, 6}
 Cap0 = 2
INVARIANTS NoOverlap InBucket Recycled
