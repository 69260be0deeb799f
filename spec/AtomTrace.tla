------------------------------ MODULE AtomTrace -----------------------------
EXTENDS AtomSpec, TraceIO
VARIABLES run, l
vars == <<mem, run, l>>
e == Ev(run, l)
Is(op) == e.op = op
TInit == run \in 1..Len(Runs) /\ l = 1 /\ mem = Runs[run].cfg.mem
Step == \/ Is("XAdd") /\ XAdd(e.a[1], e.a[2], e.r[1])
        \/ Is("XChg") /\ XChg(e.a[1], e.a[2], e.r[1])
        \/ Is("Cas") /\ Cas(e.a[1], e.a[2], e.a[3], e.r[1])
        \/ Is("CasR") /\ CasR(e.a[1], e.a[2], e.a[3], e.r[1], e.r[2])
        \/ Is("Bts") /\ Bts(e.a[1], e.a[2], e.r[1])
        \/ Is("Btr") /\ Btr(e.a[1], e.a[2], e.r[1])
        \* concurrent use by real threads: a = <<how many operations in all>>; r = <<operations accounted for in memory, distinct results seen>>
        \/ Is("Stress") /\ e.r[1] = e.a[1] /\ e.r[2] = e.a[1] /\ UNCHANGED mem
Observed == e.s = mem'
TNext == \/ More(run, l) /\ Step /\ Observed /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
