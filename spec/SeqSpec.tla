------------------------------ MODULE SeqSpec ------------------------------
(* Abstract state and transitions of bss-util's array family (Array, DynArray, CompactArray): a fixed  *)
(* set of array objects, each holding a mathematical sequence.  `live` is the number of constructed    *)
(* elements, which must always be exactly the total length (every element constructed once, destroyed  *)
(* once); it is only meaningful for element types with constructors.                                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Objs, Vals, MaxLen
VARIABLES obj, live

LOCAL Put(s, i, v) == SubSeq(s, 1, i-1) \o <<v>> \o SubSeq(s, i, Len(s))
LOCAL Cut(s, i) == SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))
LOCAL Rsz(s, n, v) == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o [k \in 1..(n - Len(s)) |-> v]

Upd(o, s) == /\ obj' = [obj EXCEPT ![o] = s]
             /\ live' = live + Len(s) - Len(obj[o])

Add(o, v)          == Upd(o, Append(obj[o], v))
Insert(o, v, i)    == i \in 0..Len(obj[o]) /\ Upd(o, Put(obj[o], i + 1, v))
Remove(o, i)       == i \in 0..(Len(obj[o]) - 1) /\ Upd(o, Cut(obj[o], i + 1))
RemoveLast(o)      == Len(obj[o]) > 0 /\ Upd(o, SubSeq(obj[o], 1, Len(obj[o]) - 1))
Write(o, i, v)     == i \in 0..(Len(obj[o]) - 1) /\ Upd(o, [obj[o] EXCEPT ![i + 1] = v])
SetLength(o, n, v) == n >= 0 /\ Upd(o, Rsz(obj[o], n, v))
Reserve(o)         == UNCHANGED <<obj, live>>
Clear(o)           == Upd(o, <<>>)
SetAll(o, s)       == Upd(o, s)
Copy(o, p)         == Upd(o, obj[p])                       \* copy construction or assignment
Append2(o, p)      == Upd(o, obj[o] \o obj[p])
Concat(o, p, q)    == Upd(o, obj[p] \o obj[q])
\* A move transfers the contents; the source stays valid with some contents `rest`.
Move(o, p, rest)   == /\ o # p
                      /\ obj' = [obj EXCEPT ![o] = obj[p], ![p] = rest]
                      /\ live' = live + Len(rest) - Len(obj[o])
MoveSelf(o, rest)  == Upd(o, rest)

Init == obj = [o \in Objs |-> <<>>] /\ live = 0
Next == \E o, p, q \in Objs, v \in Vals, i \in 0..MaxLen :
          \/ Add(o, v) \/ Insert(o, v, i) \/ Remove(o, i) \/ RemoveLast(o) \/ Write(o, i, v)
          \/ SetLength(o, i, v) \/ Reserve(o) \/ Clear(o) \/ Copy(o, p) \/ Append2(o, p) \/ Concat(o, p, q) \/ Move(o, p, <<>>)
Bound == \A o \in Objs : Len(obj[o]) <= MaxLen
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET o == CHOOSE x \in S : TRUE IN Len(obj[o]) + Total(S \ {o})
TypeOK == \A o \in Objs : \A i \in 1..Len(obj[o]) : obj[o][i] \in Vals
LifetimesBalance == live = Total(Objs)
=============================================================================
