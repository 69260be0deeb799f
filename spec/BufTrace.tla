------------------------------ MODULE BufTrace ------------------------------
EXTENDS BufSpec, TraceIO
VARIABLES run, l
vars == <<all, base, pos, unit, run, l>>
e == Ev(run, l)
C == Runs[run].cfg
Is(op) == e.op = op
Mem == C.kind \in {"ro", "dyn"}
TInit == /\ run \in 1..Len(Runs) /\ l = 1 /\ base = Runs[run].cfg.base /\ pos = 0 /\ unit = Runs[run].cfg.unit
         /\ all = (IF Runs[run].cfg.kind = "fin" THEN [k \in 1..Len(Runs[run].cfg.init) |-> Conv(Runs[run].cfg.init[k])] ELSE Runs[run].cfg.init)
Step == \/ Is("Getc") /\ Getc(e.r[1])
        \/ Is("Bump") /\ Bump(e.r[1])
        \/ Is("Next") /\ Next1(e.r[1])
        \/ Is("Getn") /\ Getn(e.a[1], e.r[1])
        \/ Is("Unget") /\ IF Mem THEN Unget(e.r[1]) ELSE UngetSome(e.r[1])
        \/ Is("Putback") /\ Mem /\ Putback(e.a[1], e.r[1])
        \/ Is("SeekOff") /\ Mem /\ SeekOff(e.a[1], e.a[2], e.r[1])
        \/ Is("SeekPos") /\ Mem /\ Seek(e.a[1], e.r[1])
        \/ Is("Avail") /\ IF Mem THEN Avail(e.r[1]) ELSE AvailSome(e.r[1])
        \/ Is("Put") /\ C.kind \in {"dyn", "fout"} /\ Put(e.a[1], e.r[1])
        \/ Is("Flush") /\ C.kind = "fout" /\ Same
        \/ Is("Move") /\ Same                                        \* the stream continues where it was in another object
Observed == IF C.kind = "dyn" THEN e.s = Whole(all')
            ELSE IF C.kind = "fout" THEN Handed(all', e.s, Is("Flush"))
            ELSE e.s = C.init
TNext == \/ More(run, l) /\ Step /\ Observed /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
