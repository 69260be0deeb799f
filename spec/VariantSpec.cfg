INIT VInit
NEXT VNext
CONSTANTS Tags = {0, 1, 2}
 TrackedTags = {1}
 Vals = {0, 5}
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
