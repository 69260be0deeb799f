SPECIFICATION Spec
CONSTANTS N = 6
INVARIANTS Inside Faithful Decided
PROPERTIES Kept
CHECK_DEADLOCK FALSE
