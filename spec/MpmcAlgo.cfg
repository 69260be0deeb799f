INIT Init
NEXT Next
CONSTANTS
 Threads = {a, b, c}
 Budget = 2
 Nodes = {1, 2, 3, 4, 5, 6, 7}
INVARIANTS Fifo PerThread Counted Safe
SYMMETRY Sym
