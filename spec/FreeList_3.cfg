INIT Init
NEXT Next
CONSTANTS
 Threads = {1, 2, 3}
 Budget = 2
 Chunk = 2
 Chunks = 1
 TagMod = 64
INVARIANTS NeverTwice FreeIsFree Nothinglost
