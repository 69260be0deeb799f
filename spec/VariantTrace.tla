---------------------------- MODULE VariantTrace ----------------------------
EXTENDS VariantSpec, TraceIO
VARIABLES run, l
vars == <<slot, run, l>>
e == Ev(run, l)
Is(op) == e.op = op
TInit == run \in 1..Len(Runs) /\ l = 1 /\ slot = [i \in 1..4 |-> Empty]
Step == \/ Is("Store") /\ Store(e.a[1], e.a[2], e.a[3])
        \/ Is("Copy") /\ CopyTo(e.a[1], e.a[2])
        \/ Is("Move") /\ MoveTo(e.a[1], e.a[2], e.s.x[e.a[2]][2])
        \/ Is("TypeSet") /\ TypeSet(e.a[1], e.a[2])
        \/ Is("Reset") /\ Reset(e.a[1])
        \/ Is("Write") /\ slot[e.a[1]][1] = e.a[2] /\ Store(e.a[1], e.a[2], e.a[3])
        \* conversion to a wider number: the stored number, unchanged
        \/ Is("Conv") /\ e.r[1] = slot[e.a[1]][2] /\ UNCHANGED slot
        \/ Is("End") /\ slot' = [i \in 1..4 |-> Empty]
Observed == e.s.x = slot' /\ e.s.ok /\ e.s.err = 0 /\ e.s.live = Cardinality({i \in 1..4 : slot'[i][1] \in TrackedTags})
TNext == \/ More(run, l) /\ Step /\ Observed /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
