INIT TInit
NEXT TNext
CONSTANTS Alphabet = {}
 MaxLen = 0
 MaxKeys = 0
 Fold = FALSE
