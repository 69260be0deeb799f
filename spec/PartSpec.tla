------------------------------ MODULE PartSpec ------------------------------
(* Disjoint sets.  cls maps each element (0-based) to the least element of its set; the union-by-weight  *)
(* forest with path compression is modelled next to it (par: negative = root with that weight).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT MaxN
VARIABLES cls, par
pvars == <<cls, par>>
Elems(f) == DOMAIN f
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
Singles(n) == [i \in 0..n-1 |-> i]
Merge(f, a, b) == LET m == IF f[a] < f[b] THEN f[a] ELSE f[b] IN [i \in DOMAIN f |-> IF f[i] \in {f[a], f[b]} THEN m ELSE f[i]]
ClassOf(f, a) == {i \in DOMAIN f : f[i] = f[a]}
NumClasses(f) == Cardinality({f[i] : i \in DOMAIN f})
\* reps is a legal choice of representatives for the partition f
RepsOK(f, reps) == /\ \A i \in DOMAIN f : reps[i] \in DOMAIN f /\ f[reps[i]] = f[i]
                   /\ \A i \in DOMAIN f : reps[reps[i]] = reps[i] /\ reps[i] = reps[f[i]]
\* ---- forest
RECURSIVE Root(_, _)
Root(p, x) == IF p[x] < 0 THEN x ELSE Root(p, p[x])
RECURSIVE Compress(_, _, _)
Compress(p, x, r) == IF x = r \/ p[x] = r THEN p ELSE Compress([p EXCEPT ![x] = r], p[x], r)
Union(a, b, ok) == IF a # b /\ a \in DOMAIN par /\ b \in DOMAIN par /\ par[a] < 0 /\ par[b] < 0
                   THEN ok /\ cls' = Merge(cls, a, b) /\ par' = (IF par[a] > par[b] THEN [par EXCEPT ![b] = par[a] + par[b], ![a] = b] ELSE [par EXCEPT ![a] = par[a] + par[b], ![b] = a])
                   ELSE ~ok /\ UNCHANGED pvars
Find(x) == par' = Compress(par, x, Root(par, x)) /\ UNCHANGED cls
Add(n) == LET m == Cardinality(DOMAIN cls) IN m + n <= MaxN /\ cls' = [i \in 0..m+n-1 |-> IF i < m THEN cls[i] ELSE i] /\ par' = [i \in 0..m+n-1 |-> IF i < m THEN par[i] ELSE -1]
Reset == cls' = Singles(Cardinality(DOMAIN cls)) /\ par' = [i \in DOMAIN par |-> -1]
Init == \E n \in 0..MaxN : cls = Singles(n) /\ par = [i \in 0..n-1 |-> -1]
Next == \/ \E a, b \in 0..MaxN, ok \in BOOLEAN : Union(a, b, ok)
        \/ \E x \in DOMAIN par : Find(x)
        \/ \E n \in 1..MaxN : Add(n)
        \/ Reset
ForestRepresents == /\ RepsOK(cls, [i \in DOMAIN par |-> Root(par, i)])
                    /\ \A i \in DOMAIN par : par[i] < 0 => -par[i] = Cardinality(ClassOf(cls, i))
\* ---- minimum spanning forests.  E: sequence of <<u, v, w>>; T: sequence of chosen <<u, v>>
RECURSIVE JoinAll(_, _, _)
JoinAll(f, E, i) == IF i > Len(E) THEN f ELSE JoinAll(Merge(f, E[i][1], E[i][2]), E, i + 1)
Comp(n, E) == JoinAll(Singles(n), E, 1)
WeightOf(E, p) == LET S == {E[i][3] : i \in {j \in 1..Len(E) : E[j][1] = p[1] /\ E[j][2] = p[2]}} IN MinS(S)
IsMSF(n, E, T) == LET TW == [i \in 1..Len(T) |-> <<T[i][1], T[i][2], WeightOf(E, T[i])>>]  full == Comp(n, E) IN
   /\ \A i \in 1..Len(T) : \E j \in 1..Len(E) : E[j][1] = T[i][1] /\ E[j][2] = T[i][2]
   /\ Len(T) = n - NumClasses(full)                               \* right number of edges and ...
   /\ Comp(n, TW) = full                                          \* ... the same connectivity: a spanning forest
   /\ \A j \in 1..Len(E) : LET Light == SelectSeq(TW, LAMBDA t : t[3] <= E[j][3])  c == Comp(n, Light) IN c[E[j][1]] = c[E[j][2]]   \* cycle property: minimum
=============================================================================
