----------------------------- MODULE UbjTrace -----------------------------
EXTENDS UbjSpec, TraceIO
VARIABLES run, l
vars == <<buf, docs, run, l>>
e == Ev(run, l)
Is(op) == e.op = op
TInit == run \in 1..Len(Runs) /\ l = 1 /\ UInit
Step == \/ Is("Write") /\ Write(e.a[1], e.r[1])
        \/ Is("Put") /\ Put(e.a[1])
        \/ Is("Parse") /\ Parse(e.r[1], e.r[2])
        \/ Is("Copy") /\ e.r = <<e.a[1], e.a[1]>> /\ UNCHANGED uvars             \* a copy, and what was copied
        \/ Is("WriteRec") /\ WriteRec(e.a[1], e.r[1])
        \/ Is("ParseRec") /\ ParseRec(e.a[1], e.r[1], e.r[2])
TNext == \/ More(run, l) /\ Step /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
