INIT TInit
NEXT TNext
CONSTANTS Objs = {1, 2, 3}
 Vals = {}
 MaxLen = 0
