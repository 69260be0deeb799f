INIT Init
NEXT Next
CONSTANT Threads = {1, 2, 3}
INVARIANTS Excl WriterKnown Progress
CHECK_DEADLOCK FALSE
