INIT TInit
NEXT TNext
INVARIANT AllDisjoint
