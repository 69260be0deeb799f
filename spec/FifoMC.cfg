INIT Init
NEXT Next
CONSTANTS Threads = {1, 2, 3}
 MaxItem = 4
INVARIANT ExactlyOnce
CHECK_DEADLOCK FALSE
