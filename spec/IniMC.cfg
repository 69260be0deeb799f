INIT Init
NEXT Next
CONSTANTS
 Names <- MCN
 Keys <- MCK
 Vals = {1, 2}
 MaxLines = 5
CONSTRAINT Bounded
INVARIANT Agree
CHECK_DEADLOCK FALSE
CONSTANT Headerless = 0
