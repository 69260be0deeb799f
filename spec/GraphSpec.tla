----------------------------- MODULE GraphSpec ------------------------------
(* A graph: an ordered list of nodes (index, value) and a bag of directed edges <<from, to, data>>.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Objs, MaxN, MaxE
VARIABLES g   \* g[o] = [n |-> <<nodes <<index, value>> >>, e |-> <<edges>>]
Empty == [n |-> <<>>, e |-> <<>>]
Idx(o) == {g[o].n[i][1] : i \in 1..Len(g[o].n)}
Put(o, x) == g' = [g EXCEPT ![o] = x]
AddNode(o, i, v) == i \notin Idx(o) /\ Put(o, [g[o] EXCEPT !.n = Append(@, <<i, v>>)])
AddEdge(o, a, b, d) == a \in Idx(o) /\ b \in Idx(o) /\ Put(o, [g[o] EXCEPT !.e = Append(@, <<a, b, d>>)])
Drop(s, i) == SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))
RemoveEdge(o, x) == \E i \in 1..Len(g[o].e) : g[o].e[i] = x /\ (\A j \in 1..(i-1) : g[o].e[j] # x) /\ Put(o, [g[o] EXCEPT !.e = Drop(@, i)])
RemoveNode(o, i) == i \in Idx(o) /\ Put(o, [n |-> SelectSeq(g[o].n, LAMBDA x : x[1] # i), e |-> SelectSeq(g[o].e, LAMBDA x : x[1] # i /\ x[2] # i)])
Move(o, p) == o # p /\ g' = [g EXCEPT ![o] = g[p], ![p] = Empty]
Reset(o) == Put(o, Empty)
\* adjacency views
Out(o, i) == SelectSeq(g[o].e, LAMBDA x : x[1] = i)
In(o, i) == SelectSeq(g[o].e, LAMBDA x : x[2] = i)
\* breadth-first levels from r
Succ(o, S) == {g[o].e[i][2] : i \in {j \in 1..Len(g[o].e) : g[o].e[j][1] \in S}}
RECURSIVE Levels(_, _, _)
Levels(o, S, seen) == IF S = {} THEN <<>> ELSE <<S>> \o Levels(o, Succ(o, S) \ (seen \cup S), seen \cup S)
Dist(L, x) == IF \E d \in 1..Len(L) : x \in L[d] THEN CHOOSE d \in 1..Len(L) : x \in L[d] ELSE 0
\* v is a legal visiting order; with a stop node the search ends as soon as it visits it
BFS(o, r, stop, v) == LET L == Levels(o, {r}, {}) IN
   /\ Len(v) >= 1 /\ v[1] = r
   /\ \A i \in 1..Len(v) : Dist(L, v[i]) > 0 /\ (\A j \in 1..(i-1) : v[j] # v[i] /\ Dist(L, v[j]) <= Dist(L, v[i])) /\ (v[i] = stop => i = Len(v))
   /\ (Len(v) = Cardinality(UNION {L[d] : d \in 1..Len(L)}) \/ v[Len(v)] = stop)
Init == g = [o \in Objs |-> Empty]
Next == \/ \E o \in Objs, i \in 0..(MaxN - 1) : AddNode(o, i, 0) /\ (\A j \in 0..(i-1) : j \in Idx(o))
        \/ \E o \in Objs, a, b \in 0..(MaxN - 1) : Len(g[o].e) < MaxE /\ AddEdge(o, a, b, 0)
        \/ \E o \in Objs, a, b \in 0..(MaxN - 1) : RemoveEdge(o, <<a, b, 0>>)
        \/ \E o \in Objs, i \in 0..(MaxN - 1) : RemoveNode(o, i)
\* every edge is incident to live nodes and is seen once from each side
Consistent == \A o \in Objs : /\ \A i \in 1..Len(g[o].e) : {g[o].e[i][1], g[o].e[i][2]} \subseteq Idx(o)
                              /\ \A k \in Idx(o) : Len(Out(o, k)) = Cardinality({i \in 1..Len(g[o].e) : g[o].e[i][1] = k})
Reaches == \A o \in Objs : \A r \in Idx(o) : LET L == Levels(o, {r}, {}) IN UNION {L[d] : d \in 1..Len(L)} \subseteq Idx(o) /\ \A d1, d2 \in 1..Len(L) : d1 # d2 => L[d1] \cap L[d2] = {}
=============================================================================
