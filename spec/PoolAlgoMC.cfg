SPECIFICATION Spec
CONSTANTS
 Workers = {w1, w2}
 Tasks = {1, 2, 3}
 Script <- MCScript
INVARIANTS AtMost Barrier Outlived Exactly
PROPERTY Ends
