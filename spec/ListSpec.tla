------------------------------ MODULE ListSpec ------------------------------
(* Linked containers: each object is the ordered sequence of its nodes; a node is [id, v] where id is   *)
(* the handle the container gave out (node pointer or array index).  Handles of live nodes are unique   *)
(* and never change; a freed handle may be given out again.  0 stands for "no node".                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Objs, Ids, Vals, MaxLen
VARIABLE lst
IdsOf(s) == {s[i].id : i \in 1..Len(s)}
PosOf(s, id) == CHOOSE i \in 1..Len(s) : s[i].id = id
At(s, i, n) == SubSeq(s, 1, i - 1) \o <<n>> \o SubSeq(s, i, Len(s))
Node(id, v) == [id |-> id, v |-> v]
Fresh(o, id) == id # 0 /\ id \notin IdsOf(lst[o])
Set1(o, s) == lst' = [lst EXCEPT ![o] = s]
AddFront(o, v, id) == Fresh(o, id) /\ Set1(o, <<Node(id, v)>> \o lst[o])
AddBack(o, v, id) == Fresh(o, id) /\ Set1(o, Append(lst[o], Node(id, v)))
Before(o, t, v, id) == t \in IdsOf(lst[o]) /\ Fresh(o, id) /\ Set1(o, At(lst[o], PosOf(lst[o], t), Node(id, v)))
After(o, t, v, id) == t \in IdsOf(lst[o]) /\ Fresh(o, id) /\ Set1(o, At(lst[o], PosOf(lst[o], t) + 1, Node(id, v)))
Remove(o, t) == t \in IdsOf(lst[o]) /\ Set1(o, LET i == PosOf(lst[o], t) IN SubSeq(lst[o], 1, i - 1) \o SubSeq(lst[o], i + 1, Len(lst[o])))
ValOf(o, t) == lst[o][PosOf(lst[o], t)].v
Write(o, t, v) == t \in IdsOf(lst[o]) /\ Set1(o, [lst[o] EXCEPT ![PosOf(lst[o], t)].v = v])
Clear(o) == Set1(o, <<>>)
Copy(o, p) == Set1(o, lst[p])
Move(o, p, rest) == o # p /\ lst' = [lst EXCEPT ![o] = lst[p], ![p] = rest]
NextId(o, t) == LET i == PosOf(lst[o], t) IN IF i = Len(lst[o]) THEN 0 ELSE lst[o][i + 1].id
PrevId(o, t) == LET i == PosOf(lst[o], t) IN IF i = 1 THEN 0 ELSE lst[o][i - 1].id
\* cyclic search from position s in direction d (+1/-1): handle of the first node holding v, or 0
Search(o, s, d, v) == LET n == Len(lst[o])
                          P(k) == ((s - 1 + d * k + 2 * n) % n) + 1
                          hits == {k \in 0..(n - 1) : lst[o][P(k)].v = v}
                      IN IF hits = {} THEN 0 ELSE lst[o][P(CHOOSE k \in hits : \A m \in hits : k <= m)].id
Init == lst = [o \in Objs |-> <<>>]
Next == \E o, p \in Objs, v \in Vals, id, t \in Ids : AddFront(o, v, id) \/ AddBack(o, v, id) \/ Before(o, t, v, id) \/ After(o, t, v, id) \/ Remove(o, t)
          \/ Write(o, t, v) \/ Clear(o) \/ Copy(o, p) \/ Move(o, p, <<>>)
Bound == \A o \in Objs : Len(lst[o]) <= MaxLen
UniqueHandles == \A o \in Objs : Cardinality(IdsOf(lst[o])) = Len(lst[o])
NeighboursAgree == \A o \in Objs : \A a, b \in IdsOf(lst[o]) : NextId(o, a) = b <=> PrevId(o, b) = a
SearchSound == \A o \in Objs : Len(lst[o]) > 0 => \A v \in Vals, s \in 1..Len(lst[o]) : LET r == Search(o, s, 1, v) IN
                  IF r = 0 THEN \A i \in 1..Len(lst[o]) : lst[o][i].v # v ELSE ValOf(o, r) = v
=============================================================================
