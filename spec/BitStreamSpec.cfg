INIT BInit
NEXT BNext
CONSTANT MaxBits = 10
CONSTRAINT BBound
INVARIANTS WholeBytes ReadsWritten PrefixOut
PROPERTIES FlushOnce
CHECK_DEADLOCK FALSE
