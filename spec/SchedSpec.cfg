INIT Init
NEXT Next
CONSTANTS Objs = {1}
 Ts = {0, 1, 2}
 MaxEv = 4
 MaxTime = 4
INVARIANT NeverEarly
INVARIANT InOrder
INVARIANT OncePerDue
INVARIANT NothingOverdue
CONSTRAINT Short
CHECK_DEADLOCK FALSE
