INIT TInit
NEXT TNext
CONSTANT Width = 64
