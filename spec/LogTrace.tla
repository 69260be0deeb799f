------------------------------ MODULE LogTrace ------------------------------
EXTENDS LogSpec, TraceIO
VARIABLES run, l
vars == <<sp, lg, st, tg, run, l>>
e == Ev(run, l)
C == Runs[run].cfg
Is(op) == e.op = op
TInit == /\ run \in 1..Len(Runs) /\ l = 1
         /\ sp = [k \in 1..Runs[run].cfg.bufs |-> [buf |-> <<>>, att |-> <<>>]] /\ lg = <<Nobody, Nobody>>
         /\ st = [k \in 1..2 |-> [at |-> 0, own |-> <<>>]] /\ tg = [k \in 1..5 |-> <<>>]
B == lg[e.a[1]].sp
Txt(x) == IF x[1] = "i" THEN Dec(x[2]) ELSE x[2]
Opt(x) == IF Len(x) = 0 THEN NoText ELSE x[1]                      \* [] is a null pointer
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Txt(Head(q)) \o Cat(Tail(q))
Names == [k \in 0..5 |-> C.levels[k + 1]]
(* a: logger, source, file, line, level, rest *)
Text == CASE Is("Log") -> Cat(e.a[6])
          [] Is("LogFormat") -> Fmt(e.a[7], 1, [k \in 1..Len(e.a[6]) |-> Txt(e.a[6][k])], FALSE)
          [] Is("PrintLog") -> e.a[6][1][2] \o <<61>> \o Dec(e.a[6][2][2])               \* "%s=%d"
Step == \/ Is("Create") /\ Create(e.a[1], e.a[2], Names, C.fmt, C.nfmt)
        \/ Is("AddDead") /\ AddDead(B)
        \/ Is("AddTarget") /\ AddTarget(B, e.a[2])
        \/ Is("AddFile") /\ AddFile(B, e.a[2])
        \/ Is("ClearTargets") /\ ClearTargets(B)
        \/ Is("SetLevel") /\ SetLevel(e.a[1], e.a[2], e.a[3])
        \/ Is("SetMax") /\ Set(e.a[1], [lg[e.a[1]] EXCEPT !.max = e.a[2]])
        \/ Is("SetFormat") /\ Set(e.a[1], [lg[e.a[1]] EXCEPT !.fmt = e.a[2]])
        \/ Is("SetNullFormat") /\ Set(e.a[1], [lg[e.a[1]] EXCEPT !.nfmt = Opt(e.a[2])])
        \/ e.op \in {"Log", "LogFormat", "PrintLog"} /\ Entry(e.a[1], Opt(e.a[2]), e.a[3], e.a[4], e.a[5], Text)
           /\ (Is("PrintLog") => e.r[1] = IF e.a[5] >= lg[e.a[1]].max THEN 0 ELSE Len(Text))
        \/ Is("Write") /\ IF e.a[3] THEN WriteFlush(B, e.a[2]) ELSE Write(B, e.a[2])
        \/ Is("Assimilate") /\ Assimilate(e.a[1], e.a[2])
        \/ Is("Stream") /\ StreamWrite(e.a[1], e.a[2], e.a[3])
        \/ Is("MoveNew") /\ MoveNew(e.a[1], e.a[2])
        \/ Is("MoveAssign") /\ MoveAssign(e.a[1], e.a[2])
        \/ Is("Destroy") /\ Destroy(e.a[1])
(* s: what each target and each redirectable stream received, whether each of the latter is connected to its own buffer *)
Observed == /\ e.s.tg = tg' /\ e.s.own = [k \in 1..2 |-> st'[k].own] /\ e.s.home = [k \in 1..2 |-> st'[k].at = 0] /\ e.s.good
TNext == \/ More(run, l) /\ Step /\ Observed /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
