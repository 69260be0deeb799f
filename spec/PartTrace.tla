----------------------------- MODULE PartTrace ------------------------------
EXTENDS PartSpec, TraceIO
VARIABLES run, l, f, rep     \* f[o]: partition, rep[o]: representatives as last observed
vars == <<pvars, run, l, f, rep>>
e == Ev(run, l)
Is(op) == e.op = op
Zero(s) == [i \in 0..Len(s)-1 |-> s[i+1]]
TInit == run \in 1..Len(Runs) /\ l = 1 /\ cls = <<>> /\ par = <<>>
         /\ f = [o \in 1..2 |-> Singles(Runs[run].cfg.n[o])] /\ rep = [o \in 1..2 |-> Singles(Runs[run].cfg.n[o])]
F == f[e.a[1]]
R == rep[e.a[1]]
To(g) == f' = [f EXCEPT ![e.a[1]] = g]
Same == UNCHANGED f
N == Cardinality(DOMAIN F)
IsName(x) == x \in DOMAIN F /\ R[x] = x
Step == \/ Is("Union") /\ LET ok == e.a[2] # e.a[3] /\ IsName(e.a[2]) /\ IsName(e.a[3]) IN e.r[1] = ok /\ To(IF ok THEN Merge(F, e.a[2], e.a[3]) ELSE F)
        \/ Is("Add") /\ To([i \in 0..N + e.a[2] - 1 |-> IF i < N THEN F[i] ELSE i])
        \/ Is("Reset") /\ To(Singles(N))
        \/ Is("Find") /\ e.r[1] = R[e.a[2]] /\ Same
        \/ Is("IsName") /\ e.r[1] = IsName(e.a[2]) /\ Same
        \/ Is("Count") /\ e.r[1] = (IF e.a[2] \in DOMAIN F THEN Cardinality(ClassOf(F, e.a[2])) ELSE -1) /\ Same
        \/ Is("Elements") /\ Range(e.r[1]) = ClassOf(F, e.a[2]) /\ Len(e.r[1]) = Cardinality(ClassOf(F, e.a[2])) /\ e.r[2] = Len(e.r[1]) /\ Same
        \/ Is("Copy") /\ To(f[e.a[2]])
        \/ Is("Move") /\ e.a[1] # e.a[2] /\ f' = [f EXCEPT ![e.a[1]] = f[e.a[2]], ![e.a[2]] = Singles(0)]
        \/ Is("MST") /\ IsMSF(e.a[2], e.a[3], e.r[1]) /\ Same
\* e.s: n = lengths, sets = set counts, rep = representative of every element (observed through Find)
Observed == \A o \in 1..2 : /\ e.s.n[o] = Cardinality(DOMAIN f'[o])
                            /\ e.s.sets[o] = NumClasses(f'[o])
                            /\ Len(e.s.rep[o]) = e.s.n[o]
                            /\ rep'[o] = Zero(e.s.rep[o]) /\ RepsOK(f'[o], Zero(e.s.rep[o]))
TNext == \/ More(run, l) /\ Step /\ rep' = [o \in 1..2 |-> Zero(e.s.rep[o])] /\ Observed /\ l' = l + 1 /\ UNCHANGED <<run, pvars>>
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
