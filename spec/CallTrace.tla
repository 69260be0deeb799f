----------------------------- MODULE CallTrace ------------------------------
EXTENDS CallSpec, TraceIO
VARIABLES run, l
vars == <<st, df, out, run, l>>
e == Ev(run, l)
Is(op) == e.op = op
TInit == run \in 1..Len(Runs) /\ l = 1 /\ st = [i \in 1..6 |-> <<>>] /\ df = [i \in 1..6 |-> <<>>] /\ out = <<>>
Step == \/ Is("Bind") /\ Bind(e.a[1], e.a[2], e.a[3])
        \/ Is("CopyB") /\ CopyB(e.a[1], e.a[2])
        \/ Is("Unbind") /\ Unbind(e.a[1])
        \/ Is("Empty") /\ e.r[1] = (st[e.a[1]] = <<>>) /\ out' = <<>> /\ UNCHANGED <<st, df>>
        \/ Is("Invoke") /\ Invoke(e.a[1], e.a[2]) /\ e.r[1] = Ret(out'[1][1], out'[1][2])
        \/ Is("Defer") /\ Defer(e.a[1], e.a[2], e.a[3])
        \/ Is("EndScope") /\ EndScope(e.a[1])
Observed == e.s.out = out' /\ e.s.err = 0 /\ (Is("EndScope") /\ df' = [i \in 1..6 |-> <<>>] /\ st' = [i \in 1..6 |-> <<>>] => e.s.live = 0)
TNext == \/ More(run, l) /\ Step /\ Observed /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
