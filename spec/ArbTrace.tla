------------------------------ MODULE ArbTrace ------------------------------
EXTENDS ArbSpec, TraceIO
VARIABLES run, l
vars == <<rec, wid, run, l>>
e == Ev(run, l)
\* e.s = <<contents of every object, widths, all views agree>>
Observed == e.s[1] = rec' /\ e.s[2] = wid' /\ e.s[3]
TInit == run \in 1..Len(Runs) /\ l = 1 /\ rec = <<<<>>, <<>>>> /\ wid = Runs[run].cfg.w
Is(op) == e.op = op
Step == \/ Is("Add") /\ AAdd(e.a[1], e.a[2]) /\ e.r = <<Len(rec[e.a[1]])>>
        \/ Is("Remove") /\ ARemove(e.a[1], e.a[2])
        \/ Is("RemoveLast") /\ ARemoveLast(e.a[1])
        \/ Is("Write") /\ AWrite(e.a[1], e.a[2], e.a[3])
        \/ Is("Length") /\ ALength(e.a[1], e.a[2], e.a[3])
        \/ Is("Clear") /\ AClear(e.a[1])
        \/ Is("Width") /\ AWidth(e.a[1], e.a[2])
        \/ Is("Set") /\ ASet(e.a[1], e.a[2], e.a[3])
        \/ Is("Copy") /\ ACopy(e.a[1], e.a[2])
        \/ Is("Move") /\ AMove(e.a[1], e.a[2], e.s[1][e.a[2]])
        \* VARARRAY(n): n default-constructed elements inside the scope (on the stack or the heap), what was written is read back, none left after it
        \/ Is("Scoped") /\ e.r = <<e.a[1], e.a[1], 0, 0, e.a[2]>> /\ UNCHANGED <<rec, wid>>
        \/ Is("Multi") /\ e.r = <<RowMajor(e.a[1], e.a[2], Len(e.a[1])), 1>> /\ UNCHANGED <<rec, wid>>
        \/ Is("End") /\ rec' = <<<<>>, <<>>>> /\ wid' = e.s[2]
TNext == \/ More(run, l) /\ Step /\ Observed /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
