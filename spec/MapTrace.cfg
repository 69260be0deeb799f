INIT TInit
NEXT TNext
CONSTANTS Objs = {1, 2}
 Keys = {}
 Vals = {}
