------------------------------ MODULE OrdSpec -------------------------------
(* Ordered collections: search trees (unique or multi), sorted arrays and array maps.  Each object is    *)
(* the sequence of its items <<key, payload>> in key order; equal keys may sit next to each other in     *)
(* any order (unless Unique), and every operation touches exactly one item.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Objs, Keys, Vals, MaxLen
VARIABLE x
K(i) == i[1]
Ins(s, i, v) == SubSeq(s, 1, i-1) \o <<v>> \o SubSeq(s, i, Len(s))
Rem(s, i) == SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))
Sorted(s) == \A i \in 1..Len(s) - 1 : K(s[i]) <= K(s[i+1])
Strict(s) == \A i \in 1..Len(s) - 1 : K(s[i]) < K(s[i+1])
Present(s, k) == \E i \in 1..Len(s) : K(s[i]) = k
\* position p is a legal place for key k
Fits(s, p, k) == /\ p \in 1..Len(s) + 1
                 /\ p > 1 => K(s[p-1]) <= k
                 /\ p <= Len(s) => k <= K(s[p])
InsertAt(o, p, it) == Fits(x[o], p, K(it)) /\ x' = [x EXCEPT ![o] = Ins(x[o], p, it)]
\* unique containers: a present key is left alone
InsertUnique(o, p, it, ok) == IF Present(x[o], K(it)) THEN ~ok /\ UNCHANGED x ELSE ok /\ InsertAt(o, p, it)
RemoveAt(o, p) == p \in 1..Len(x[o]) /\ x' = [x EXCEPT ![o] = Rem(x[o], p)]
\* remove one item with this key, if any; p says which
RemoveKey(o, k, p, ok) == IF Present(x[o], k) THEN ok /\ p \in 1..Len(x[o]) /\ K(x[o][p]) = k /\ RemoveAt(o, p) ELSE ~ok /\ UNCHANGED x
\* give the item at p a new key/payload; it moves to q
ReplaceAt(o, p, it, q) == LET s == Rem(x[o], p) IN p \in 1..Len(x[o]) /\ Fits(s, q, K(it)) /\ x' = [x EXCEPT ![o] = Ins(s, q, it)]
SetPayload(o, p, v) == p \in 1..Len(x[o]) /\ x' = [x EXCEPT ![o][p] = <<K(x[o][p]), v>>]
Clear(o) == x' = [x EXCEPT ![o] = <<>>]
DropLast(o, n) == x' = [x EXCEPT ![o] = IF n > Len(@) THEN <<>> ELSE SubSeq(@, 1, Len(@) - n)]
Copy(o, p) == x' = [x EXCEPT ![o] = x[p]]
Move(o, p, rest) == o # p /\ x' = [x EXCEPT ![o] = x[p], ![p] = rest]
\* --- queries
LastLE(s, k) == LET S == {i \in 1..Len(s) : K(s[i]) <= k} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
FirstGE(s, k) == LET S == {i \in 1..Len(s) : K(s[i]) >= k} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j >= i
\* nearest: the key itself when present, otherwise one of the two neighbours
IsNearest(s, k, it) == /\ \E i \in 1..Len(s) : s[i] = it
                       /\ IF Present(s, k) THEN K(it) = k ELSE ~\E i \in 1..Len(s) : (K(it) < K(s[i]) /\ K(s[i]) < k) \/ (k < K(s[i]) /\ K(s[i]) < K(it))
\* --- balance: each node is <<longest left, longest right, shortest left, shortest right>> in nodes down to a missing child
AVLBalanced(n) == n[1] - n[2] \in {-1, 0, 1}
RBBalanced(n) == LET lo == IF n[3] < n[4] THEN n[3] ELSE n[4]  hi == IF n[1] > n[2] THEN n[1] ELSE n[2] IN hi + 1 <= 2 * (lo + 1)
Init == x = [o \in Objs |-> <<>>]
Next == \E o, q \in Objs, p, p2 \in 1..MaxLen, k \in Keys, v \in Vals, ok \in BOOLEAN :
          \/ Len(x[o]) < MaxLen /\ InsertAt(o, p, <<k, v>>)
          \/ RemoveKey(o, k, p, ok) \/ RemoveAt(o, p) \/ ReplaceAt(o, p, <<k, v>>, p2) \/ SetPayload(o, p, v)
          \/ Clear(o) \/ DropLast(o, p) \/ Copy(o, q) \/ Move(o, q, <<>>)
NextUnique == \E o, q \in Objs, p \in 1..MaxLen, k \in Keys, v \in Vals, ok \in BOOLEAN :
          \/ Len(x[o]) < MaxLen /\ InsertUnique(o, p, <<k, v>>, ok)
          \/ RemoveKey(o, k, p, ok) \/ Clear(o) \/ Move(o, q, <<>>)
AlwaysSorted == \A o \in Objs : Sorted(x[o])
AlwaysStrict == \A o \in Objs : Strict(x[o])
\* the neighbour queries agree with each other and with membership
QueriesAgree == \A o \in Objs, k \in Keys : LET s == x[o]  a == LastLE(s, k)  b == FirstGE(s, k) IN
                  /\ Present(s, k) <=> (a # 0 /\ b # 0 /\ b <= a)
                  /\ ~Present(s, k) => (b = 0 \/ b = a + 1)
                  /\ a # 0 => IsNearest(s, k, s[a])
                  /\ (Len(s) > 0 => \E i \in 1..Len(s) : IsNearest(s, k, s[i]))
=============================================================================
