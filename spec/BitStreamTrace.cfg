INIT TInit
NEXT TNext
CONSTANT MaxBits = 0
