------------------------------ MODULE MemSpec ------------------------------
(* Abstract memory allocators.  An address is a pair <<hi, lo>> ordered lexicographically (TLC has 32 bit    *)
(* integers).  live maps a block id to [s |-> first address, t |-> one past the last, c |-> class, o |-> the   *)
(* allocator].  peak counts, per allocator and class, the largest number of blocks ever live at once; ever    *)
(* are the addresses a class has been served from.                                                            *)
EXTENDS Integers, FiniteSets, Sequences, TLC
VARIABLES live, peak, ever
mvars == <<live, peak, ever>>
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Le(a, b) == a = b \/ Lt(a, b)
Disjoint(b, c) == Le(b.t, c.s) \/ Le(c.t, b.s)
LiveOf(o) == {i \in DOMAIN live : live[i].o = o}
LiveIn(o, c) == {i \in DOMAIN live : live[i].o = o /\ live[i].c = c}
Peak(o, c) == IF <<o, c>> \in DOMAIN peak THEN peak[<<o, c>>] ELSE 0
Ever(o, c) == IF <<o, c>> \in DOMAIN ever THEN ever[<<o, c>>] ELSE {}
MaxM(a, b) == IF a > b THEN a ELSE b
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]

MemInit == live = <<>> /\ peak = <<>> /\ ever = <<>>
\* A fresh block overlaps no live block of any allocator.
Alloc(o, id, c, s, t) ==
  /\ id \notin DOMAIN live
  /\ Le(s, t)
  /\ LET b == [s |-> s, t |-> t, c |-> c, o |-> o] IN
     /\ \A i \in DOMAIN live : Disjoint(b, live[i])
     /\ live' = Put(live, id, b)
  /\ peak' = Put(peak, <<o, c>>, MaxM(Peak(o, c), Cardinality(LiveIn(o, c)) + 1))
  /\ ever' = Put(ever, <<o, c>>, Ever(o, c) \cup {s})
\* A fixed-size pool asks for memory only when everything it ever had is in use.
MayGrow(o, c) == Cardinality(LiveIn(o, c)) >= Peak(o, c)
\* A caching allocator serves a size from the blocks of that size it already has before carving new memory.
MustReuse(o, c, s) == Cardinality(LiveIn(o, c)) < Peak(o, c) => s \in Ever(o, c)
Dealloc(id) == id \in DOMAIN live /\ live' = Without(live, {id}) /\ UNCHANGED <<peak, ever>>
Clear(o) == /\ live' = Without(live, LiveOf(o))
            /\ ever' = [k \in DOMAIN ever |-> IF k[1] = o THEN {} ELSE ever[k]]
            /\ UNCHANGED peak
\* ownership moves from allocator p to allocator o (o's own blocks must be gone)
MoveTo(o, p) == /\ LiveOf(o) = {}
                /\ live' = [i \in DOMAIN live |-> IF live[i].o = p THEN [live[i] EXCEPT !.o = o] ELSE live[i]]
                /\ peak' = [k \in (DOMAIN peak \ {x \in DOMAIN peak : x[1] \in {o, p}}) \cup {<<o, x[2]>> : x \in {y \in DOMAIN peak : y[1] = p}} |-> IF k[1] = o THEN peak[<<p, k[2]>>] ELSE peak[k]]
                /\ ever' = [k \in (DOMAIN ever \ {x \in DOMAIN ever : x[1] \in {o, p}}) \cup {<<o, x[2]>> : x \in {y \in DOMAIN ever : y[1] = p}} |-> IF k[1] = o THEN ever[<<p, k[2]>>] ELSE ever[k]]
AllDisjoint == \A i, j \in DOMAIN live : i # j => Disjoint(live[i], live[j])
PeakOK == \A k \in DOMAIN peak : Cardinality(LiveIn(k[1], k[2])) <= peak[k]
=============================================================================
