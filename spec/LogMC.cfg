SPECIFICATION Spec
CONSTANTS MaxOps = 6
Bufs = 3
INVARIANTS Connected OneOwner Restorable Gone AtMost OwnOnce
PROPERTIES Stays
CHECK_DEADLOCK FALSE
