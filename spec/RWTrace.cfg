INIT TInit
NEXT TNext
CONSTANT Threads = {1, 2, 3}
INVARIANT Excl
