INIT TInit
NEXT TNext
CONSTANTS Objs = {1, 2}
 MaxN = 0
 MaxE = 0
