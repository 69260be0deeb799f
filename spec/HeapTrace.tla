------------------------------ MODULE HeapTrace -----------------------------
(* Conformance of BinaryHeap, PriorityQueue and PriorityHeap.  Any heap-ordered arrangement of the right *)
(* items is accepted; the bag of items and every result are determined.                                  *)
EXTENDS HeapSpec, TraceIO
VARIABLES run, l, b, a      \* b[o] = bag (set of <<priority, id>>); a[o] = array as last observed
vars == <<hvars, run, l, b, a>>
e == Ev(run, l)
C == Runs[run].cfg
Is(op) == e.op = op
TInit == run \in 1..Len(Runs) /\ l = 1 /\ b = <<{}, {}>> /\ a = <<<<>>, <<>>>> /\ h = <<>> /\ bag = {} /\ nid = 0
B == b[e.a[1]]
To(s) == b' = [b EXCEPT ![e.a[1]] = s]
Same == UNCHANGED b
ById(s, id) == {it \in s : it[2] = id}
Step == \/ Is("Insert") /\ ById(B, e.a[3]) = {} /\ To(B \cup {<<e.a[2], e.a[3]>>})
        \/ Is("Pop") /\ B # {} /\ IsMax(B, e.r[1]) /\ To(B \ {e.r[1]})
        \/ Is("Peek") /\ B # {} /\ IsMax(B, e.r[1]) /\ Same
        \/ Is("Discard") /\ \E it \in B : IsMax(B, it) /\ To(B \ {it}) /\ ~(it \in Range(e.s.x[e.a[1]]))
        \* by array position: the item observed there
        \/ Is("RemoveAt") /\ IF e.a[2] \in 1..Len(a[e.a[1]]) THEN e.r[1] /\ To(B \ {a[e.a[1]][e.a[2]]}) ELSE ~e.r[1] /\ Same
        \/ Is("SetAt") /\ IF e.a[2] \in 1..Len(a[e.a[1]]) THEN e.r[1] /\ To((B \ {a[e.a[1]][e.a[2]]}) \cup {<<e.a[3], e.a[4]>>}) ELSE ~e.r[1] /\ Same
        \* by handle: the item with that id
        \/ Is("RemoveId") /\ e.r[1] /\ To(B \ ById(B, e.a[2]))
        \/ Is("SetId") /\ e.r[1] /\ ById(B, e.a[2]) # {} /\ To((B \ ById(B, e.a[2])) \cup {<<e.a[3], e.a[2]>>})
        \/ Is("Clear") /\ To({})
        \/ Is("Build") /\ To(Range(e.a[2]))
        \/ Is("Copy") /\ To(b[e.a[2]])
        \/ Is("Move") /\ e.a[1] # e.a[2] /\ b' = [b EXCEPT ![e.a[1]] = b[e.a[2]], ![e.a[2]] = Range(e.s.x[e.a[2]])]
        \* static helpers on plain arrays
        \/ Is("Heapify") /\ SameBag(e.a[1], e.r[1]) /\ HeapOK(e.r[1]) /\ Same
        \/ Is("Sort") /\ SameBag(e.a[1], e.r[1]) /\ (\A i \in 1..Len(e.r[1]) - 1 : P(e.r[1][i]) <= P(e.r[1][i+1])) /\ Same
\* e.s.x = arrays; handle heaps have e.s.x = items found through each live handle, in handle order (array order not visible), e.s.h = distinct handles
Observed == /\ e.s.ok /\ e.s.err = 0
            /\ \A o \in 1..2 : /\ e.s.n[o] = Cardinality(b'[o])
                               /\ Len(e.s.x[o]) = Cardinality(b'[o])
                               /\ Range(e.s.x[o]) = b'[o]
                               /\ C.array => HeapOK(e.s.x[o])
            /\ C.life => e.s.live = Len(e.s.x[1]) + Len(e.s.x[2])
            /\ a' = e.s.x
TNext == \/ More(run, l) /\ Step /\ Observed /\ l' = l + 1 /\ UNCHANGED <<run, hvars>>
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
