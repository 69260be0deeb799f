INIT TInit
NEXT TNext
CONSTANTS Base = 256
 BitsPer = 8
