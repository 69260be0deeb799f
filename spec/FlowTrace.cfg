INIT TInit
NEXT TNext
CONSTANTS Nodes = {}
 MaxCap = 0
 MaxEdges = 0
