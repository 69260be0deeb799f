------------------------------ MODULE MapTrace ------------------------------
EXTENDS MapSpec, TraceIO
VARIABLES run, l
vars == <<m, run, l>>
e == Ev(run, l)
C == Runs[run].cfg
Is(op) == e.op = op
TInit == run \in 1..Len(Runs) /\ l = 1 /\ m = <<<<>>, <<>>>>
Pairs(f) == {<<k, f[k]>> : k \in DOMAIN f}
AsMap(s) == LET D == {s[i][1] : i \in 1..Len(s)} IN [k \in D |-> (s[CHOOSE i \in 1..Len(s) : s[i][1] = k])[2]]
ValOr(o, k, d) == IF Has(o, k) THEN m[o][k] ELSE d
Step == \/ Is("Insert") /\ Insert(e.a[1], e.a[2], e.a[3]) /\ e.r = <<e.a[2], e.a[3]>>     \* the returned position holds that key and value
        \/ Is("Set") /\ Set(e.a[1], e.a[2], e.a[3], e.r[1])
        \/ Is("Remove") /\ Remove(e.a[1], e.a[2], e.r[1])
        \* lookups by every route: [exists, value found, default when missing]
        \/ Is("Find") /\ (\A i \in 1..Len(e.r[1]) : e.r[1][i] = Has(e.a[1], e.a[2])) /\ (\A i \in 1..Len(e.r[2]) : e.r[2][i] = ValOr(e.a[1], e.a[2], C.none)) /\ UNCHANGED m
        \/ Is("Clear") /\ Clear(e.a[1])
        \/ Is("Reserve") /\ UNCHANGED m
        \/ Is("Copy") /\ Copy(e.a[1], e.a[2])
        \/ Is("Move") /\ Move(e.a[1], e.a[2], AsMap(e.s.x[e.a[2]]))
\* e.s.n = reported sizes; e.s.full => e.s.x = all <<key, value>> pairs met by iteration (each once)
Observed == /\ e.s.ok
            /\ \A o \in 1..2 : /\ e.s.n[o] = Cardinality(DOMAIN m'[o])
                               /\ e.s.full => (Range(e.s.x[o]) = Pairs(m'[o]) /\ Len(e.s.x[o]) = Cardinality(DOMAIN m'[o]))
TNext == \/ More(run, l) /\ Step /\ Observed /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
