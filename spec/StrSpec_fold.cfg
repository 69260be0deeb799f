INIT Init
NEXT Next
CONSTANTS Alphabet = {65, 97, 98}
 MaxLen = 2
 MaxKeys = 4
 Fold = TRUE
INVARIANT WalkIsLookup
INVARIANT Resolves
CHECK_DEADLOCK FALSE
