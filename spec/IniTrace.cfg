INIT TInit
NEXT TNext
CONSTANT Headerless = 0
