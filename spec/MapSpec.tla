------------------------------ MODULE MapSpec -------------------------------
(* Finite maps (and sets, with every value 0): Hash, HashIns, Map, and the payload view of the search   *)
(* trees.  Each object is a function from the keys present to their values.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Objs, Keys, Vals
VARIABLE m
Has(o, k) == k \in DOMAIN m[o]
Set1(o, f) == m' = [m EXCEPT ![o] = f]
Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
Insert(o, k, v) == Set1(o, Put(m[o], k, v))                               \* inserts, or replaces the value of a present key
Set(o, k, v, ok) == ok = Has(o, k) /\ Set1(o, IF ok THEN Put(m[o], k, v) ELSE m[o])   \* only changes a present key
Remove(o, k, ok) == ok = Has(o, k) /\ Set1(o, Drop(m[o], k))
Clear(o) == Set1(o, <<>>)
Copy(o, p) == Set1(o, m[p])
Move(o, p, rest) == o # p /\ m' = [m EXCEPT ![o] = m[p], ![p] = rest]
Init == m = [o \in Objs |-> <<>>]
Next == \E o, p \in Objs, k \in Keys, v \in Vals, ok \in BOOLEAN : Insert(o, k, v) \/ Set(o, k, v, ok) \/ Remove(o, k, ok) \/ Clear(o) \/ Copy(o, p) \/ Move(o, p, <<>>)
TypeOK == \A o \in Objs : DOMAIN m[o] \subseteq Keys /\ \A k \in DOMAIN m[o] : m[o][k] \in Vals
\* one object's operations never touch another
Frame == [][\A o \in Objs, k \in Keys, v \in Vals : Insert(o, k, v) => (m'[o][k] = v /\ \A j \in Keys \ {k} : (j \in DOMAIN m'[o] <=> j \in DOMAIN m[o]))]_m
=============================================================================
