----------------------------- MODULE RingModel ------------------------------
(* RingAlloc's algorithm: buckets with a reservation counter and a lock whose reader count is the number of live   *)
(* blocks, an outer reader-writer lock around the current bucket, and a free list of recycled buckets.  The two    *)
(* locks are used at the level C01 establishes for them (one step per call, attempts may be refused while the      *)
(* writer bit is up); the free list at the level C04 does.  Blocks are [b, s, n]: bucket, start, length.           *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Threads, Budget, Sizes, Buckets, Cap0
VARIABLES ow, ord, cur, sz, res, bw, br, gc, lastsz, live, pc, v, left, bad
vars == <<ow, ord, cur, sz, res, bw, br, gc, lastsz, live, pc, v, left, bad>>
\* ow/ord: outer writer bit and reader count; sz[b]=0: bucket does not exist; bw/br: bucket writer bit, reader count
\* v[t]: [n, b, r, back]: request, bucket, reservation, continuation after _checkRecycle
V0 == [n |-> 0, b |-> 0, r |-> 0, back |-> ""]
Init == /\ ow = FALSE /\ ord = 0 /\ cur = 1 /\ sz = [b \in Buckets |-> IF b = 1 THEN Cap0 ELSE 0] /\ res = [b \in Buckets |-> 0] /\ bw = [b \in Buckets |-> FALSE]
        /\ br = [b \in Buckets |-> 0] /\ gc = <<>> /\ lastsz = Cap0 /\ live = {} /\ pc = [t \in Threads |-> "idle"] /\ v = [t \in Threads |-> V0]
        /\ left = [t \in Threads |-> Budget] /\ bad = FALSE
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
O == <<ow, ord>>
B == <<cur, sz, res, bw, br, gc, lastsz, live>>
Overlap(x, y) == x.b = y.b /\ x.s < y.s + y.n /\ y.s < x.s + x.n
Max(a, b) == IF a > b THEN a ELSE b
\* _genBucket(n): drop recycled buckets that are too small, reuse the first that fits, else a new one
RECURSIVE Fit(_, _)
Fit(q, n) == IF q = <<>> \/ sz[Head(q)] >= n THEN q ELSE Fit(Tail(q), n)
Gen(n) == LET q == Fit(gc, n)
              dead == {gc[i] : i \in 1..(Len(gc) - Len(q))} IN
   /\ bad' = (bad \/ \E x \in live : x.b \in dead)
   /\ (IF q # <<>>
       THEN LET h == Head(q) IN /\ cur' = h /\ gc' = Tail(q) /\ res' = [res EXCEPT ![h] = 0] /\ bw' = [bw EXCEPT ![h] = FALSE]
                                /\ sz' = [b \in Buckets |-> IF b \in dead THEN 0 ELSE sz[b]] /\ lastsz' = Max(lastsz, n)
       ELSE LET free == {b \in Buckets : sz[b] = 0 \/ b \in dead}
                h == CHOOSE b \in free : \A c \in free : b <= c IN
            /\ free # {} /\ cur' = h /\ gc' = <<>> /\ lastsz' = Max(lastsz, n) + 1 /\ res' = [res EXCEPT ![h] = 0] /\ bw' = [bw EXCEPT ![h] = FALSE]
            /\ sz' = [b \in Buckets |-> IF b = h THEN Max(lastsz, n) + 1 ELSE IF b \in dead THEN 0 ELSE sz[b]])
   /\ UNCHANGED <<br, live>>
Step(t) ==
  \/ /\ pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ \E n \in Sizes : v' = [v EXCEPT ![t] = [V0 EXCEPT !.n = n]]
     /\ Go(t, "rl") /\ UNCHANGED <<ow, ord, cur, sz, res, bw, br, gc, lastsz, live, bad>>
  \/ /\ pc[t] = "rl" /\ ~ow /\ ord' = ord + 1 /\ Go(t, "cur") /\ ow' = ow /\ UNCHANGED B /\ UNCHANGED <<v, left, bad>>
  \/ /\ pc[t] = "cur" /\ v' = [v EXCEPT ![t].b = cur] /\ Go(t, "brl") /\ UNCHANGED O /\ UNCHANGED B /\ UNCHANGED <<left, bad>>
  \/ /\ pc[t] = "brl" /\ (IF bw[v[t].b] THEN Go(t, "again") /\ br' = br ELSE br' = [br EXCEPT ![v[t].b] = @ + 1] /\ Go(t, "add"))
     /\ bad' = (bad \/ sz[v[t].b] = 0)                                       \* the bucket must still exist
     /\ UNCHANGED O /\ UNCHANGED <<cur, sz, res, bw, gc, lastsz, live, v, left>>
  \/ /\ pc[t] = "again" /\ ord' = ord - 1 /\ Go(t, "rl") /\ ow' = ow /\ UNCHANGED B /\ UNCHANGED <<v, left, bad>>
  \/ /\ pc[t] = "add" /\ (LET b == v[t].b IN /\ v' = [v EXCEPT ![t].r = res[b]] /\ res' = [res EXCEPT ![b] = @ + v[t].n]
                                            /\ Go(t, IF res[b] + v[t].n > sz[b] THEN "over" ELSE "got"))
     /\ UNCHANGED O /\ UNCHANGED <<cur, sz, bw, br, gc, lastsz, live, left, bad>>
  \/ /\ pc[t] = "got" /\ ord' = ord - 1 /\ ow' = ow
     /\ (LET x == [b |-> v[t].b, s |-> v[t].r, n |-> v[t].n] IN bad' = (bad \/ \E y \in live : Overlap(x, y)) /\ live' = live \cup {x})
     /\ Go(t, "idle") /\ v' = [v EXCEPT ![t] = V0] /\ UNCHANGED <<cur, sz, res, bw, br, gc, lastsz, left>>
  \/ /\ pc[t] = "over" /\ res' = [res EXCEPT ![v[t].b] = @ - v[t].n] /\ Go(t, "overu") /\ UNCHANGED O /\ UNCHANGED <<cur, sz, bw, br, gc, lastsz, live, v, left, bad>>
  \/ /\ pc[t] = "overu" /\ br' = [br EXCEPT ![v[t].b] = @ - 1] /\ Go(t, IF v[t].r = 0 THEN "chk" ELSE "up") /\ v' = [v EXCEPT ![t].back = "up"]
     /\ UNCHANGED O /\ UNCHANGED <<cur, sz, res, bw, gc, lastsz, live, left, bad>>
  \* AttemptUpgrade: refused while the writer bit is up; otherwise raise it, wait to be the only reader, act, drop it
  \/ /\ pc[t] = "up" /\ (IF ow THEN Go(t, "again") /\ ow' = ow ELSE ow' = TRUE /\ Go(t, "upw")) /\ ord' = ord /\ UNCHANGED B /\ UNCHANGED <<v, left, bad>>
  \/ /\ pc[t] = "upw" /\ ord = 1 /\ Gen(v[t].n) /\ ow' = FALSE /\ Go(t, "again") /\ ord' = ord /\ UNCHANGED <<v, left>>
  \* Dealloc of any live block (its own or another thread's)
  \/ \E x \in live : /\ pc[t] = "idle" /\ live' = live \ {x} /\ v' = [v EXCEPT ![t] = [V0 EXCEPT !.b = x.b, !.back = "dend"]] /\ Go(t, "drl")
                     /\ UNCHANGED O /\ UNCHANGED <<cur, sz, res, bw, br, gc, lastsz, left, bad>>
  \/ /\ pc[t] = "drl" /\ ~ow /\ ord' = ord + 1 /\ Go(t, "dbr") /\ ow' = ow /\ UNCHANGED B /\ UNCHANGED <<v, left, bad>>
  \/ /\ pc[t] = "dbr" /\ br' = [br EXCEPT ![v[t].b] = @ - 1] /\ bad' = (bad \/ sz[v[t].b] = 0) /\ Go(t, "chk") /\ UNCHANGED O /\ UNCHANGED <<cur, sz, res, bw, gc, lastsz, live, v, left>>
  \/ /\ pc[t] = "dend" /\ ord' = ord - 1 /\ Go(t, "idle") /\ v' = [v EXCEPT ![t] = V0] /\ ow' = ow /\ UNCHANGED B /\ UNCHANGED <<left, bad>>
  \* _checkRecycle(b)
  \/ /\ pc[t] = "chk" /\ (IF ~bw[v[t].b] /\ br[v[t].b] = 0 THEN bw' = [bw EXCEPT ![v[t].b] = TRUE] /\ Go(t, "chk2") ELSE bw' = bw /\ Go(t, v[t].back))
     /\ UNCHANGED O /\ UNCHANGED <<cur, sz, res, br, gc, lastsz, live, v, left, bad>>
  \/ /\ pc[t] = "chk2" /\ Go(t, IF cur = v[t].b THEN "chk3" ELSE "push") /\ UNCHANGED O /\ UNCHANGED B /\ UNCHANGED <<v, left, bad>>
  \/ /\ pc[t] = "chk3" /\ (IF ow THEN Go(t, "push") /\ ow' = ow ELSE ow' = TRUE /\ Go(t, "chk4")) /\ ord' = ord /\ UNCHANGED B /\ UNCHANGED <<v, left, bad>>
  \/ /\ pc[t] = "chk4" /\ ord = 1 /\ ow' = FALSE /\ ord' = ord
     /\ (IF cur = v[t].b THEN res' = [res EXCEPT ![cur] = 0] /\ bw' = [bw EXCEPT ![cur] = FALSE] /\ Go(t, v[t].back) ELSE Go(t, "push") /\ UNCHANGED <<res, bw>>)
     /\ UNCHANGED <<cur, sz, br, gc, lastsz, live, v, left, bad>>
  \/ /\ pc[t] = "push" /\ gc' = <<v[t].b>> \o gc /\ Go(t, v[t].back) /\ UNCHANGED O /\ UNCHANGED <<cur, sz, res, bw, br, lastsz, live, v, left, bad>>
Done == \A t \in Threads : pc[t] = "idle" /\ left[t] = 0
Next == (\E t \in Threads : Step(t)) \/ (Done /\ UNCHANGED vars)
\* promises
NoOverlap == ~bad
InBucket == \A x \in live : sz[x.b] > 0 /\ x.s + x.n <= sz[x.b] /\ br[x.b] > 0
Recycled == \A i \in 1..Len(gc) : /\ bw[gc[i]] /\ sz[gc[i]] > 0 /\ (\A x \in live : x.b # gc[i]) /\ (\A j \in 1..Len(gc) : i # j => gc[i] # gc[j])
Room == \E b \in Buckets : sz[b] = 0 \/ gc # <<>>
=============================================================================
