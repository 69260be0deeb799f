------------------------------ MODULE OrdTrace ------------------------------
EXTENDS OrdSpec, TraceIO
VARIABLES run, l
vars == <<x, run, l>>
e == Ev(run, l)
C == Runs[run].cfg
Is(op) == e.op = op
TInit == run \in 1..Len(Runs) /\ l = 1 /\ x = <<<<>>, <<>>>>
S == x[e.a[1]]
Same == UNCHANGED x
\* positions are 1-based; 0 = none
Step == \/ Is("Insert") /\ InsertAt(e.a[1], e.r[1], <<e.a[2], e.a[3]>>)
        \/ Is("InsertU") /\ InsertUnique(e.a[1], e.r[2], <<e.a[2], e.a[3]>>, e.r[1])
        \/ Is("RemoveKey") /\ RemoveKey(e.a[1], e.a[2], e.r[2], e.r[1])
        \/ Is("RemoveAt") /\ IF e.a[2] \in 1..Len(S) THEN e.r[1] /\ RemoveAt(e.a[1], e.a[2]) ELSE ~e.r[1] /\ Same
        \/ Is("ReplaceAt") /\ ReplaceAt(e.a[1], e.a[2], <<e.a[3], e.a[4]>>, e.r[1])
        \/ Is("MapRemove") /\ e.r[1] = (IF Present(S, e.a[2]) THEN LastLE(S, e.a[2]) ELSE 0) /\ RemoveKey(e.a[1], e.a[2], e.r[1], Present(S, e.a[2]))
        \* array map: changes the payload of the item Get would find; nothing if the key is absent
        \/ Is("MapSet") /\ IF Present(S, e.a[2]) THEN SetPayload(e.a[1], LastLE(S, e.a[2]), e.a[3]) /\ e.r[1] = LastLE(S, e.a[2]) ELSE Same
        \/ Is("Clear") /\ Clear(e.a[1])
        \/ Is("DropLast") /\ DropLast(e.a[1], e.a[2])
        \/ Is("Reserve") /\ Same
        \/ Is("Copy") /\ Copy(e.a[1], e.a[2])
        \/ Is("Move") /\ Move(e.a[1], e.a[2], e.s.x[e.a[2]]) /\ Sorted(e.s.x[e.a[2]])
        \* --- queries: any item with that key (or none) by each route
        \/ Is("Find") /\ Same /\ \A i \in 1..Len(e.r) : IF Present(S, e.a[2]) THEN e.r[i] # 0 /\ S[e.r[i]][1] = e.a[2] ELSE e.r[i] = 0
        \/ Is("FindPay") /\ Same /\ \A i \in 1..Len(e.r) : IF Present(S, e.a[2]) THEN e.r[i] = S[LastLE(S, e.a[2])][2] ELSE e.r[i] = -1
        \/ Is("MapGet") /\ Same /\ e.r = <<IF Present(S, e.a[2]) THEN LastLE(S, e.a[2]) ELSE 0>>
        \/ Is("Before") /\ Same /\ e.r = <<LastLE(S, e.a[2])>>
        \/ Is("After") /\ Same /\ e.r = <<FirstGE(S, e.a[2])>>
        \/ Is("Nearest") /\ Same /\ IF Len(S) = 0 THEN e.r = <<>> ELSE Len(e.r) = 1 /\ IsNearest(S, e.a[2], e.r[1])
        \* threaded tree: an equal item, else the one before (after), else the first (last)
        \/ Is("TBefore") /\ Same /\ Len(S) > 0 /\ e.r[1] \in 1..Len(S) /\ S[e.r[1]][1] = (IF LastLE(S, e.a[2]) = 0 THEN S[1][1] ELSE S[LastLE(S, e.a[2])][1])
        \/ Is("TAfter") /\ Same /\ Len(S) > 0 /\ e.r[1] \in 1..Len(S) /\ S[e.r[1]][1] = (IF FirstGE(S, e.a[2]) = 0 THEN S[Len(S)][1] ELSE S[FirstGE(S, e.a[2])][1])
\* e.s: n = sizes by walking, ends = <<first, last>> of each (empty when empty), full => x = in-order contents, bal = shapes of all nodes
Observed == /\ e.s.ok
            /\ \A o \in 1..2 : /\ e.s.n[o] = Len(x'[o])
                               /\ e.s.full => e.s.x[o] = x'[o]
                               /\ C.unique => Strict(x'[o])
            /\ \A i \in 1..Len(e.s.bal) : IF C.bal = "avl" THEN AVLBalanced(e.s.bal[i]) ELSE RBBalanced(e.s.bal[i])
TNext == \/ More(run, l) /\ Step /\ Observed /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
