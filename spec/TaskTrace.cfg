INIT TInit
NEXT TNext
CONSTANT Threads = {0, 1, 2, 3}
