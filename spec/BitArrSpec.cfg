INIT Init
NEXT BNext
CONSTANTS Objs = {1, 2}
 Vals = {0, 1}
 MaxLen = 3
CONSTRAINT Bound
INVARIANTS TypeOK LifetimesBalance CountsAgree BytesInRange
