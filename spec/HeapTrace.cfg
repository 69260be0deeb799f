INIT TInit
NEXT TNext
CONSTANTS Prios = {}
 MaxLen = 0
 MaxIds = 0
