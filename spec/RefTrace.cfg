INIT TInit
NEXT TNext
CONSTANTS NSlots = 4
 MaxObj = 0
