------------------------------ MODULE SeqTrace ------------------------------
EXTENDS SeqSpec, TraceIO
VARIABLES run, l
vars == <<obj, live, run, l>>
e == Ev(run, l)
\* e.s = [x |-> contents of every object, ok |-> all views of each object agree, live |-> live elements, err |-> lifetime errors]
Observed == /\ e.s.x = obj'
            /\ e.s.ok
            /\ e.s.err = 0
            /\ Runs[run].cfg.track => e.s.live = live'
TInit == /\ run \in 1..Len(Runs) /\ l = 1
         /\ obj = <<<<>>, <<>>, <<>>>> /\ live = 0
Is(op) == e.op = op
Step == \/ Is("Add") /\ Add(e.a[1], e.a[2]) /\ e.r = <<Len(obj[e.a[1]])>>
        \/ Is("Insert") /\ Insert(e.a[1], e.a[2], e.a[3])
        \/ Is("Remove") /\ Remove(e.a[1], e.a[2])
        \/ Is("RemoveLast") /\ RemoveLast(e.a[1])
        \/ Is("Write") /\ Write(e.a[1], e.a[2], e.a[3])
        \/ Is("SetLength") /\ SetLength(e.a[1], e.a[2], e.a[3])
        \/ Is("Reserve") /\ Reserve(e.a[1]) /\ e.r[1] >= e.a[2]
        \/ Is("Clear") /\ Clear(e.a[1])
        \/ Is("SetAll") /\ SetAll(e.a[1], e.a[2])
        \/ Is("Copy") /\ Copy(e.a[1], e.a[2])
        \/ Is("Append") /\ Append2(e.a[1], e.a[2])
        \/ Is("Concat") /\ Concat(e.a[1], e.a[2], e.a[3])
        \/ Is("Move") /\ Move(e.a[1], e.a[2], e.s.x[e.a[2]])
        \/ Is("End") /\ obj' = <<<<>>, <<>>, <<>>>> /\ live' = 0
TNext == \/ More(run, l) /\ Step /\ Observed /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_vars
=============================================================================
