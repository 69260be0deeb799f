INIT Init
NEXT Next
CONSTANTS Ids = {1, 2}
 Coords = {0, 1, 2}
INVARIANT SearchIsDefinition
CHECK_DEADLOCK FALSE
