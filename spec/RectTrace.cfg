INIT TInit
NEXT TNext
CONSTANTS Ids = {}
 Coords = {}
