----------------------------- MODULE QueueTrace -----------------------------
EXTENDS QueueSpec, TraceIO
VARIABLES run, l
vars == <<q, cap, live, run, l>>
e == Ev(run, l)
C == Runs[run].cfg
Is(op) == e.op = op
TInit == /\ run \in 1..Len(Runs) /\ l = 1 /\ q = <<<<>>, <<>>>> /\ live = 0 /\ cap = Runs[run].cfg.cap
Same == Set1(1, q[1]) /\ UNCHANGED cap
Step == \/ Is("Push") /\ Push(C.kind, e.a[1], e.a[2])
        \/ Is("Pop") /\ C.kind \in {"stack", "circ"} /\ PopNewest(e.a[1], e.r[1])
        \/ Is("PopOldest") /\ C.kind \in {"queue", "circ"} /\ PopOldest(e.a[1], e.r[1])
        \/ Is("PopAny") /\ C.kind = "rand" /\ PopAny(e.a[1], e.r[1], e.s.x[e.a[1]])
        \/ Is("RemoveAt") /\ C.kind = "rand" /\ e.a[2] + 1 \in 1..Len(q[e.a[1]]) /\ PopAny(e.a[1], q[e.a[1]][e.a[2] + 1], e.s.x[e.a[1]])
        \/ Is("Discard") /\ (\E v \in Range(q[e.a[1]]) : IF C.kind = "stack" THEN PopNewest(e.a[1], v) ELSE PopOldest(e.a[1], v))
        \/ Is("Clear") /\ Clear(e.a[1])
        \/ Is("Write") /\ Write(e.a[1], e.a[2], e.a[3])
        \/ Is("SetCap") /\ SetCap(e.a[1], e.a[2])
        \/ Is("SetLen") /\ SetLen(e.a[1], e.a[2], e.a[3])
        \/ Is("Copy") /\ Copy(e.a[1], e.a[2])
        \/ Is("Append") /\ C.kind = "rand" /\ Set1(e.a[1], q[e.a[1]] \o q[e.a[2]]) /\ UNCHANGED cap
        \/ Is("Move") /\ Move(e.a[1], e.a[2], e.s.x[e.a[2]], e.s.cap[e.a[2]])
        \* back-to-front index of a full circular array: index -1 is the oldest item
        \/ Is("Neg") /\ Len(q[e.a[1]]) = cap[e.a[1]] /\ e.a[2] \in 1..Len(q[e.a[1]]) /\ e.r[1] = q[e.a[1]][e.a[2]] /\ Same
        \/ Is("End") /\ q' = <<<<>>, <<>>>> /\ live' = 0 /\ UNCHANGED cap
Observed == e.s.x = q' /\ e.s.ok /\ e.s.err = 0 /\ (C.track => e.s.live = live') /\ (C.kind = "circ" => e.s.cap = cap')
TNext == \/ More(run, l) /\ Step /\ Observed /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
