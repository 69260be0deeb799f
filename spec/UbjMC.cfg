INIT MCInit
NEXT MCNext
INVARIANT Carried
INVARIANT Expressible
