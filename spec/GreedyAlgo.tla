----------------------------- MODULE GreedyAlgo -----------------------------
(* GreedyAlloc: bump allocation in the newest chunk under a read lock; who overshoots tries to upgrade and install *)
(* a bigger chunk.  The lock is used at C01's level.  Chunks never move or die before Clear.                       *)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, Budget, Sizes, Init0
VARIABLES ow, ord, root, size, pos, live, pc, v, left, bad
vars == <<ow, ord, root, size, pos, live, pc, v, left, bad>>
V0 == [n |-> 0, r |-> 0, c |-> 0]
Init == /\ ow = FALSE /\ ord = 0 /\ root = 1 /\ size = Init0 /\ pos = 0 /\ live = {} /\ pc = [t \in Threads |-> "idle"] /\ v = [t \in Threads |-> V0] /\ left = [t \in Threads |-> Budget] /\ bad = FALSE
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Overlap(x, y) == x.c = y.c /\ x.r < y.r + y.n /\ y.r < x.r + x.n
Step(t) ==
  \/ pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ (\E n \in Sizes : v' = [v EXCEPT ![t] = [V0 EXCEPT !.n = n]]) /\ Go(t, "rl") /\ UNCHANGED <<ow, ord, root, size, pos, live, bad>>
  \/ pc[t] = "rl" /\ ~ow /\ ord' = ord + 1 /\ Go(t, "add") /\ UNCHANGED <<ow, root, size, pos, live, v, left, bad>>
  \/ pc[t] = "add" /\ v' = [v EXCEPT ![t].r = pos] /\ pos' = pos + v[t].n /\ Go(t, "root") /\ UNCHANGED <<ow, ord, root, size, live, left, bad>>
  \/ pc[t] = "root" /\ v' = [v EXCEPT ![t].c = root] /\ Go(t, IF v[t].r + v[t].n >= size THEN "up" ELSE "got") /\ UNCHANGED <<ow, ord, root, size, pos, live, left, bad>>
  \/ pc[t] = "up" /\ (IF ow THEN Go(t, "un") /\ ow' = ow ELSE ow' = TRUE /\ Go(t, "upw")) /\ UNCHANGED <<ord, root, size, pos, live, v, left, bad>>
  \/ pc[t] = "upw" /\ ord = 1 /\ ow' = FALSE /\ Go(t, "un")
     /\ (IF v[t].r + v[t].n >= size THEN root' = root + 1 /\ size' = v[t].r + v[t].n + 1 /\ pos' = 0 ELSE UNCHANGED <<root, size, pos>>) /\ UNCHANGED <<ord, live, v, left, bad>>
  \/ pc[t] = "un" /\ ord' = ord - 1 /\ Go(t, "rl") /\ UNCHANGED <<ow, root, size, pos, live, v, left, bad>>
  \/ pc[t] = "got" /\ ord' = ord - 1 /\ Go(t, "idle") /\ (LET x == v[t] IN bad' = (bad \/ (x.c = root /\ x.r + x.n > size) \/ \E y \in live : Overlap(x, y)) /\ live' = live \cup {x})
     /\ v' = [v EXCEPT ![t] = V0] /\ UNCHANGED <<ow, root, size, pos, left>>
Done == \A t \in Threads : pc[t] = "idle" /\ left[t] = 0
Next == (\E t \in Threads : Step(t)) \/ (Done /\ UNCHANGED vars)
NoOverlap == ~bad
All == Done => Cardinality(live) = Budget * Cardinality(Threads)
\* a request that overshot finds room after the chunk it asked for: nobody circles alone
Bounded == pos <= 64
=============================================================================
