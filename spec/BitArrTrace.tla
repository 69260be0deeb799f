---------------------------- MODULE BitArrTrace -----------------------------
EXTENDS BitArrSpec, TraceIO
VARIABLES run, l
vars == <<obj, live, run, l>>
e == Ev(run, l)
Observed == e.s.x = obj' /\ e.s.ok
TInit == /\ run \in 1..Len(Runs) /\ l = 1 /\ obj = <<<<>>, <<>>, <<>>>> /\ live = 0
Is(op) == e.op = op
Step == \/ Is("Add") /\ Add(e.a[1], e.a[2]) /\ e.r = <<Len(obj[e.a[1]])>>
        \/ Is("Insert") /\ Insert(e.a[1], e.a[2], e.a[3])
        \/ Is("Remove") /\ Remove(e.a[1], e.a[2])
        \/ Is("RemoveLast") /\ RemoveLast(e.a[1])
        \/ Is("Write") /\ Write(e.a[1], e.a[2], e.a[3])
        \/ Is("SetLength") /\ SetLength(e.a[1], e.a[2], 0)
        \/ Is("Reserve") /\ Reserve(e.a[1]) /\ e.r[1] >= e.a[2]
        \/ Is("Clear") /\ Clear(e.a[1])
        \/ Is("SetAll") /\ SetAll(e.a[1], e.a[2])
        \/ Is("Copy") /\ Copy(e.a[1], e.a[2])
        \/ Is("Move") /\ Move(e.a[1], e.a[2], e.s.x[e.a[2]])
        \/ Is("Flip") /\ Flip(e.a[1])
        \/ Is("FlipBit") /\ FlipBit(e.a[1], e.a[2])
        \/ Is("CountBits") /\ e.a[2] + e.a[3] <= Len(obj[e.a[1]]) /\ e.r = <<Ones(obj[e.a[1]], e.a[2], e.a[3])>> /\ Reserve(e.a[1])
        \/ Is("RawBytes") /\ (\A b \in 1..Len(e.r) : e.r[b] = ByteOf(obj[e.a[1]], b - 1)) /\ Reserve(e.a[1])
TNext == \/ More(run, l) /\ Step /\ Observed /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
