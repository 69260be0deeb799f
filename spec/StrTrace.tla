------------------------------ MODULE StrTrace ------------------------------
EXTENDS StrSpec, TraceIO
VARIABLES run, l
vars == <<keys, ic, tab, run, l>>
e == Ev(run, l)
C == Runs[run].cfg
Is(op) == e.op = op
TInit == run \in 1..Len(Runs) /\ l = 1 /\ keys = <<>> /\ ic = (Runs[run].cfg.kind = "trie" /\ Runs[run].cfg.ic) /\ tab = <<<<>>, <<>>>>
Step == \/ Is("Build") /\ keys' = e.a[1] /\ e.r[1] = Len(e.a[1]) /\ UNCHANGED <<ic, tab>>
        \/ Is("Get") /\ e.r[1] = Lookup(e.a[1]) /\ UNCHANGED stv
        \/ Is("Same") /\ e.r[1] = Len(keys) /\ UNCHANGED stv
        \/ Is("Make") /\ Set1(e.a[1], e.a[2])
        \/ Is("Add") /\ Add(e.a[1], e.a[2])
        \/ Is("Cat") /\ Cat(e.a[1], e.a[2], e.a[3])
        \/ Is("Copy") /\ Copy(e.a[1], e.a[2])
        \/ Is("Move") /\ Move(e.a[1], e.a[2])
Observed == C.kind = "table" => e.s.x = tab' /\ e.s.ok
TNext == \/ More(run, l) /\ Step /\ Observed /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
