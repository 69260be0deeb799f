INIT Init
NEXT NextUnique
CONSTANTS Objs = {1, 2}
 Keys = {1, 2, 3, 4}
 Vals = {0, 1}
 MaxLen = 4
INVARIANTS AlwaysStrict QueriesAgree
CHECK_DEADLOCK FALSE
