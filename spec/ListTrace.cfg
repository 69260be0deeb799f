INIT TInit
NEXT TNext
CONSTANTS Objs = {1, 2}
 Ids = {}
 Vals = {}
 MaxLen = 0
