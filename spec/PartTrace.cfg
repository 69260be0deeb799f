INIT TInit
NEXT TNext
CONSTANT MaxN = 0
