INIT MInit
NEXT MNext
CONSTANT Steps = {0, 1, 2, 5}
CONSTANT MaxCalls = 7
INVARIANT AlwaysPlays
INVARIANT OpenMatches
INVARIANT OncePerPass
CONSTRAINT Small
CHECK_DEADLOCK FALSE
