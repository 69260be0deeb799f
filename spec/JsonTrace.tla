----------------------------- MODULE JsonTrace -----------------------------
EXTENDS JsonSpec, TraceIO
VARIABLES run, l
vars == <<buf, docs, run, l>>
e == Ev(run, l)
Is(op) == e.op = op
TInit == run \in 1..Len(Runs) /\ l = 1 /\ JInit
Step == \/ Is("Write") /\ Write(e.a[1], e.r[1])
        \/ Is("Put") /\ Val(e.a[1], 1)[2] # 0 /\ buf' = buf \o e.a[1] /\ docs' = Append(docs, Val(e.a[1], 1)[1])   \* text from elsewhere
        \/ Is("Parse") /\ Parse(e.r[1], e.r[2])
        \/ Is("WriteRec") /\ WriteRec(e.a[1], e.r[1])
        \/ Is("ParseRec") /\ ParseRec(e.a[1], e.r[1], e.r[2])
TNext == \/ More(run, l) /\ Step /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
