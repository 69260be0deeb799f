INIT Init
NEXT Next
CONSTANTS Objs = {1, 2}
 Keys = {1, 2, 3}
 Vals = {0, 1}
 MaxLen = 3
INVARIANTS AlwaysSorted QueriesAgree
CHECK_DEADLOCK FALSE
