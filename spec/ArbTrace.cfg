INIT TInit
NEXT TNext
CONSTANTS AObjs = {1, 2}
 ABytes = {}
 AMaxLen = 0
 AMaxWid = 0
