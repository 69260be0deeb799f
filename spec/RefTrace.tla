------------------------------ MODULE RefTrace ------------------------------
EXTENDS RefSpec, TraceIO
VARIABLES run, l
vars == <<ptr, link, extra, alive, fresh, own, run, l>>
e == Ev(run, l)
Is(op) == e.op = op
TInit == run \in 1..Len(Runs) /\ l = 1 /\ RInit
Step == \/ Is("New") /\ New
        \/ Is("Assign") /\ Assign(e.a[1], e.a[2])
        \/ Is("Copy") /\ CopyAsg(e.a[1], e.a[2])
        \/ Is("Move") /\ MoveAsg(e.a[1], e.a[2])
        \/ Is("Link") /\ Link(e.a[1], e.a[2])
        \/ Is("Advance") /\ Advance(e.a[1])
        \/ Is("Grab") /\ Grab(e.a[1], e.a[2], e.r[1])
        \/ Is("Drop") /\ Drop(e.a[1], e.r[1])
        \/ Is("OwnNew") /\ OwnNew(e.a[1])
        \/ Is("OwnCopy") /\ OwnCopy(e.a[1], e.a[2])
        \/ Is("OwnMove") /\ OwnMove(e.a[1], e.a[2])
        \/ Is("OwnBorrow") /\ OwnBorrow(e.a[1], e.a[2])
        \/ Is("OwnReset") /\ OwnReset(e.a[1])
PtrNow == IF Runs[run].cfg.kind = "ref" THEN ptr' ELSE [i \in 1..NSlots |-> own'[i][1]]
Observed == e.s.p = PtrNow /\ Range(e.s.alive) = {o \in alive' : o > 0} /\ e.s.err = 0
TNext == \/ More(run, l) /\ Step /\ Observed /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
