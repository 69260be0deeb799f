------------------------------ MODULE HeapSpec ------------------------------
(* Binary max-heaps stored in an array, at the level of the percolation algorithm, with a ghost bag.     *)
(* Items are <<priority, id>>; only the priority is compared.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Prios, MaxLen, MaxIds
VARIABLES h, bag, nid
hvars == <<h, bag, nid>>
P(i) == i[1]
Parent(i) == i \div 2
HeapOK(s) == \A i \in 2..Len(s) : P(s[Parent(i)]) >= P(s[i])
BagOf(s) == {s[i] : i \in 1..Len(s)}
IsMax(b, it) == it \in b /\ \A j \in b : P(j) <= P(it)
\* ---- the algorithms (k = hole, v = item being placed)
RECURSIVE Up(_, _, _)
Up(s, k, v) == IF k = 1 \/ P(v) < P(s[Parent(k)]) THEN [s EXCEPT ![k] = v] ELSE Up([s EXCEPT ![k] = s[Parent(k)]], Parent(k), v)
RECURSIVE Down(_, _, _)
Down(s, k, v) == LET l == 2*k  r == 2*k + 1
                     c == IF r <= Len(s) /\ P(s[l]) <= P(s[r]) THEN r ELSE l IN
                 IF l > Len(s) \/ P(v) > P(s[c]) THEN [s EXCEPT ![k] = v] ELSE Down([s EXCEPT ![k] = s[c]], c, v)
RemoveIx(s, k) == LET v == s[Len(s)]  t == SubSeq(s, 1, Len(s) - 1) IN
                  IF k = Len(s) THEN t ELSE IF k > 1 /\ P(v) > P(t[Parent(k)]) THEN Up(t, k, v) ELSE Down(t, k, v)
RECURSIVE HeapifyFrom(_, _)
HeapifyFrom(s, i) == IF i = 0 THEN s ELSE HeapifyFrom(Down(s, i, s[i]), i - 1)
Heapify(s) == HeapifyFrom(s, Len(s) \div 2)
\* ---- actions
Insert(p) == /\ Len(h) < MaxLen /\ nid < MaxIds
             /\ LET it == <<p, nid + 1>> IN h' = Up(Append(h, it), Len(h) + 1, it) /\ bag' = bag \cup {it}
             /\ nid' = nid + 1
RemoveAt(k) == k <= Len(h) /\ h' = RemoveIx(h, k) /\ bag' = bag \ {h[k]} /\ UNCHANGED nid
Pop == Len(h) > 0 /\ IsMax(bag, h[1]) /\ RemoveAt(1)
Set(k, p) == /\ k <= Len(h)
             /\ LET it == <<p, h[k][2]>> IN /\ h' = (IF P(h[k]) <= p THEN Up(h, k, it) ELSE Down(h, k, it))
                                            /\ bag' = (bag \ {h[k]}) \cup {it}
             /\ UNCHANGED nid
Build(s) == h' = Heapify(s) /\ bag' = BagOf(s) /\ nid' = Len(s)
Init == h = <<>> /\ bag = {} /\ nid = 0
Next == \/ \E p \in Prios : Insert(p) \/ \E k \in 1..MaxLen : Set(k, p)
        \/ \E k \in 1..MaxLen : RemoveAt(k)
        \/ Pop
        \/ nid = 0 /\ \E n \in 2..MaxLen, f \in [1..MaxLen -> Prios] : Build([i \in 1..n |-> <<f[i], i>>])
IsHeap == HeapOK(h)
SameItems == BagOf(h) = bag /\ Cardinality(bag) = Len(h)
TopIsMax == Len(h) > 0 => IsMax(bag, h[1])
=============================================================================
