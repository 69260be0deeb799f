INIT AInit
NEXT ANext
CONSTANTS AObjs = {1, 2}
 ABytes = {0, 1}
 AMaxLen = 2
 AMaxWid = 2
CONSTRAINT ABound
INVARIANTS WidthOK RowMajorOK
CHECK_DEADLOCK FALSE
