SPECIFICATION Spec
CONSTANTS MaxBlocks = 4
 Init0 = 1
CONSTRAINT Bound
INVARIANT Inv
PROPERTY Refines
CHECK_DEADLOCK FALSE
