INIT Init
NEXT Next
CONSTANTS
 Threads = {1, 2}
 Budget = 3
 Chunk = 2
 Chunks = 2
 TagMod = 64
INVARIANTS NeverTwice FreeIsFree Nothinglost
