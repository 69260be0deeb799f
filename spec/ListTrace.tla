----------------------------- MODULE ListTrace ------------------------------
EXTENDS ListSpec, TraceIO
VARIABLES run, l
vars == <<lst, run, l>>
e == Ev(run, l)
Is(op) == e.op = op
TInit == run \in 1..Len(Runs) /\ l = 1 /\ lst = <<<<>>, <<>>>>
AsNodes(s) == [i \in 1..Len(s) |-> Node(s[i][1], s[i][2])]
Step == \/ Is("AddFront") /\ AddFront(e.a[1], e.a[2], e.r[1])
        \/ Is("AddBack") /\ AddBack(e.a[1], e.a[2], e.r[1])
        \/ Is("Before") /\ Before(e.a[1], e.a[2], e.a[3], e.r[1])
        \/ Is("After") /\ After(e.a[1], e.a[2], e.a[3], e.r[1])
        \/ Is("Remove") /\ Remove(e.a[1], e.a[2])
        \/ Is("RemoveVal") /\ Remove(e.a[1], e.a[2]) /\ e.r[1] = ValOf(e.a[1], e.a[2])
        \/ Is("RemoveDir") /\ Remove(e.a[1], e.a[2]) /\ e.r[1] = (IF e.a[3] THEN PrevId(e.a[1], e.a[2]) ELSE NextId(e.a[1], e.a[2]))
        \/ Is("Write") /\ Write(e.a[1], e.a[2], e.a[3])
        \/ Is("Clear") /\ Clear(e.a[1])
        \/ Is("Copy") /\ Copy(e.a[1], e.a[2])
        \/ Is("Move") /\ Move(e.a[1], e.a[2], AsNodes(e.s.x[e.a[2]]))
        \/ Is("Reserve") /\ e.r[1] >= e.a[2] /\ UNCHANGED lst
        \/ Is("Search") /\ Len(lst[e.a[1]]) > 0 /\ e.r[1] = Search(e.a[1], IF e.a[2] = 0 THEN 1 ELSE PosOf(lst[e.a[1]], e.a[2]), IF e.a[3] THEN -1 ELSE 1, e.a[4]) /\ UNCHANGED lst
Observed == /\ \A o \in 1..2 : AsNodes(e.s.x[o]) = lst'[o]
            /\ e.s.ok
TNext == \/ More(run, l) /\ Step /\ Observed /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
