--------------------------- MODULE BitStreamTrace ---------------------------
EXTENDS BitStreamSpec, TraceIO
VARIABLES run, l
vars == <<wr, rd, run, l>>
e == Ev(run, l)
Is(op) == e.op = op
TInit == run \in 1..Len(Runs) /\ l = 1 /\ BInit
Zero(s) == \A i \in 1..Len(s) : s[i] = 0
Step == \/ Is("Write") /\ Put(e.a[1])
        \/ Is("Flush") /\ Flush
        \/ Is("Handover") /\ Handover
        \* e.r = [bits read, rest of the last byte touched (must be cleared), were the bytes beyond left alone]
        \/ Is("Read") /\ Get(e.a[1], e.r[1]) /\ Zero(e.r[2]) /\ e.r[3]
\* e.s = the bits of all bytes in the underlying stream
TNext == \/ More(run, l) /\ Step /\ e.s = OutBits' /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
