INIT FInit
NEXT FNext
CONSTANT Width = 4
INVARIANT FType
PROPERTY Untouched
