----------------------------- MODULE RectTrace ------------------------------
EXTENDS RectSpec, TraceIO
VARIABLES run, l
vars == <<items, div, run, l>>
e == Ev(run, l)
Is(op) == e.op = op
TInit == run \in 1..Len(Runs) /\ l = 1 /\ items = << >> /\ div = 0
Once(s, S) == Len(s) = Cardinality(S) /\ Range(s) = S
Step == \/ Is("Insert") /\ Insert(e.a[1], e.a[2])
        \/ Is("Remove") /\ Remove(e.a[1])
        \/ Is("Clear") /\ Clear
        \/ Is("Keep") /\ UNCHANGED items
        \/ Is("Query") /\ Once(e.r[1], Hits(e.a[1])) /\ UNCHANGED items
        \/ Is("All") /\ Once(e.r[1], DOMAIN items) /\ e.r[2] /\ UNCHANGED items
TNext == \/ More(run, l) /\ Step /\ l' = l + 1 /\ UNCHANGED <<run, div>>
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
