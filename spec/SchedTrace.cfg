INIT TInit
NEXT TNext
CONSTANTS Objs = {1, 2}
 Ts = {}
 MaxEv = 0
 MaxTime = 0
