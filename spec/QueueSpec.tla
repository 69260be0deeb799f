----------------------------- MODULE QueueSpec ------------------------------
(* Stack, Queue, ArrayCircular and RandomQueue: each object is the sequence of its items, oldest first. *)
(* A circular array has a fixed capacity `cap`: pushing into a full one replaces the oldest item; the   *)
(* others grow.  `live` counts constructed elements.                                                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Objs, Vals, MaxLen, Kind
VARIABLES q, cap, live
qv == <<q, cap, live>>
Set1(o, s) == q' = [q EXCEPT ![o] = s] /\ live' = live + Len(s) - Len(q[o])
Newest(s) == s[Len(s)]
Init == q = [o \in Objs |-> <<>>] /\ live = 0 /\ cap \in [Objs -> 1..2]
Push(kind, o, v) ==
  /\ UNCHANGED cap
  /\ IF kind = "circ" /\ Len(q[o]) = cap[o] THEN Set1(o, Append(Tail(q[o]), v)) ELSE Set1(o, Append(q[o], v))
PopNewest(o, v) == Len(q[o]) > 0 /\ v = Newest(q[o]) /\ Set1(o, SubSeq(q[o], 1, Len(q[o]) - 1)) /\ UNCHANGED cap
PopOldest(o, v) == Len(q[o]) > 0 /\ v = Head(q[o]) /\ Set1(o, Tail(q[o])) /\ UNCHANGED cap
\* a random queue gives back any one of its items; the order of the others is its own business
Bag(s) == [x \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
PopAny(o, v, rest) == Len(q[o]) > 0 /\ Bag(Append(rest, v)) = Bag(q[o]) /\ Set1(o, rest) /\ UNCHANGED cap
Clear(o) == Set1(o, <<>>) /\ UNCHANGED cap
Write(o, i, v) == i \in 1..Len(q[o]) /\ Set1(o, [q[o] EXCEPT ![i] = v]) /\ UNCHANGED cap
SetCap(o, n) == n > 0 /\ cap' = [cap EXCEPT ![o] = n] /\ IF n < cap[o] THEN Set1(o, <<>>) ELSE Set1(o, q[o])   \* shrinking empties it
SetLen(o, n, v) == Set1(o, IF n <= Len(q[o]) THEN SubSeq(q[o], 1, n) ELSE q[o] \o [i \in 1..(n - Len(q[o])) |-> v]) /\ UNCHANGED cap
Copy(o, p) == Set1(o, q[p]) /\ cap' = [cap EXCEPT ![o] = cap[p]]
Move(o, p, rest, c) == /\ o # p /\ q' = [q EXCEPT ![o] = q[p], ![p] = rest] /\ cap' = [cap EXCEPT ![o] = cap[p], ![p] = c]
                       /\ live' = live + Len(rest) - Len(q[o])
Next == \E o, p \in Objs, v \in Vals, n \in 1..MaxLen :
          \/ Push(Kind, o, v) \/ PopNewest(o, v) \/ PopOldest(o, v) \/ Clear(o) \/ Write(o, n, v) \/ Copy(o, p) \/ Move(o, p, <<>>, cap[p])
          \/ (Kind = "circ" /\ SetCap(o, n)) \/ (Kind = "stack" /\ SetLen(o, n, v)) \/ (Len(q[o]) > 0 /\ PopAny(o, q[o][1], Tail(q[o])))
Bound == \A o \in Objs : Len(q[o]) <= MaxLen
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET o == CHOOSE x \in S : TRUE IN Len(q[o]) + Total(S \ {o})
LifetimesBalance == live = Total(Objs)
CapBound == Kind = "circ" => \A o \in Objs : Len(q[o]) <= cap[o]
TypeOK == \A o \in Objs : \A i \in 1..Len(q[o]) : q[o][i] \in Vals
=============================================================================
