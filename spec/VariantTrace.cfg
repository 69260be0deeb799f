INIT TInit
NEXT TNext
CONSTANTS Tags = {0, 1, 2, 3, 4}
 TrackedTags = {1, 3}
 Vals = {0}
