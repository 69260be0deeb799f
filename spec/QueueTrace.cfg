INIT TInit
NEXT TNext
CONSTANTS Objs = {1, 2}
 Vals = {}
 MaxLen = 0
 Kind = ""
