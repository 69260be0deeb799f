------------------------------ MODULE FreeList ------------------------------
(* BlockPolicy/LocklessBlockPolicy's free list: a tagged head (p, tag) changed by compare-and-swap, next links    *)
(* stored inside the free blocks, and growth under a flag when the list is empty.  A block's link is scribbled    *)
(* over ("data") while a user holds the block.  Tags run modulo TagMod (0: no tag at all).  Owned says who holds  *)
(* a block; no block is ever held twice.                                                                          *)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, Budget, Chunk, Chunks, TagMod
Blocks == 1..(Chunk * Chunks)
Bump(x) == IF TagMod = 0 THEN 0 ELSE (x + 1) % TagMod
VARIABLES head, tag, nx, grown, flag, pc, r, own, left, bad
vars == <<head, tag, nx, grown, flag, pc, r, own, left, bad>>
\* r[t]: [p |-> head seen, g |-> tag seen, x |-> next seen / block being pushed]
Init == /\ head = 0 /\ tag = 0 /\ nx = [b \in Blocks |-> 0] /\ grown = 0 /\ flag = FALSE /\ bad = FALSE
        /\ pc = [t \in Threads |-> "idle"] /\ r = [t \in Threads |-> [p |-> 0, g |-> 0, x |-> 0]] /\ own = [b \in Blocks |-> 0]
        /\ left = [t \in Threads |-> Budget]
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Data == -1
Step(t) ==
  \/ /\ pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ Go(t, "load") /\ UNCHANGED <<head, tag, nx, grown, flag, r, own, bad>>
  \* alloc: load head; read its link; CAS
  \/ /\ pc[t] = "load" /\ r' = [r EXCEPT ![t] = [p |-> head, g |-> tag, x |-> 0]] /\ Go(t, IF head = 0 THEN "grow" ELSE "link") /\ UNCHANGED <<head, tag, nx, grown, flag, own, left, bad>>
  \/ /\ pc[t] = "link" /\ r' = [r EXCEPT ![t].x = nx[r[t].p]] /\ Go(t, "cas") /\ UNCHANGED <<head, tag, nx, grown, flag, own, left, bad>>
  \/ /\ pc[t] = "cas"
     /\ (IF head = r[t].p /\ tag = r[t].g
         THEN LET b == r[t].p IN /\ head' = r[t].x /\ tag' = Bump(tag) /\ bad' = (bad \/ own[b] # 0 \/ r[t].x = Data)
                                 /\ own' = [own EXCEPT ![b] = t] /\ nx' = [nx EXCEPT ![b] = Data] /\ Go(t, "idle")
         ELSE Go(t, "load") /\ UNCHANGED <<head, tag, nx, own, bad>>)
     /\ UNCHANGED <<grown, flag, r, left>>
  \* growth: only one thread at a time, and only if the list is still empty
  \/ /\ pc[t] = "grow" /\ (IF flag THEN Go(t, "load") /\ flag' = flag ELSE flag' = TRUE /\ Go(t, "recheck")) /\ UNCHANGED <<head, tag, nx, grown, r, own, left, bad>>
  \/ /\ pc[t] = "recheck" /\ (IF head # 0 \/ grown = Chunks THEN Go(t, "ungrow") /\ UNCHANGED <<nx, grown, r>>
        ELSE LET f == grown * Chunk + 1 IN
             /\ grown' = grown + 1 /\ nx' = [b \in Blocks |-> IF b \in f..(f + Chunk - 2) THEN b + 1 ELSE IF b = f + Chunk - 1 THEN 0 ELSE nx[b]]
             /\ r' = [r EXCEPT ![t].x = f] /\ Go(t, "gload"))
     /\ UNCHANGED <<head, tag, flag, own, left, bad>>
  \* splice: the new run's last link goes to the old head; CAS in the run's first block
  \/ /\ pc[t] = "gload" /\ r' = [r EXCEPT ![t] = [@ EXCEPT !.p = head, !.g = tag]] /\ Go(t, "glink") /\ UNCHANGED <<head, tag, nx, grown, flag, own, left, bad>>
  \/ /\ pc[t] = "glink" /\ nx' = [nx EXCEPT ![r[t].x + Chunk - 1] = r[t].p] /\ Go(t, "gcas") /\ UNCHANGED <<head, tag, grown, flag, r, own, left, bad>>
  \/ /\ pc[t] = "gcas" /\ (IF head = r[t].p /\ tag = r[t].g THEN head' = r[t].x /\ tag' = Bump(tag) /\ Go(t, "ungrow") ELSE Go(t, "gload") /\ UNCHANGED <<head, tag>>)
     /\ UNCHANGED <<nx, grown, flag, r, own, left, bad>>
  \/ /\ pc[t] = "ungrow" /\ flag' = FALSE /\ Go(t, IF head = 0 /\ grown = Chunks THEN "idle" ELSE "load") /\ UNCHANGED <<head, tag, nx, grown, r, own, left, bad>>
  \* free a block of one's own: link it to the head seen, CAS it in
  \/ \E b \in Blocks : /\ pc[t] = "idle" /\ own[b] = t /\ own' = [own EXCEPT ![b] = 0] /\ r' = [r EXCEPT ![t].x = b] /\ Go(t, "pload") /\ UNCHANGED <<head, tag, nx, grown, flag, left, bad>>
  \/ /\ pc[t] = "pload" /\ r' = [r EXCEPT ![t] = [@ EXCEPT !.p = head, !.g = tag]] /\ Go(t, "plink") /\ UNCHANGED <<head, tag, nx, grown, flag, own, left, bad>>
  \/ /\ pc[t] = "plink" /\ nx' = [nx EXCEPT ![r[t].x] = r[t].p] /\ Go(t, "pcas") /\ UNCHANGED <<head, tag, grown, flag, r, own, left, bad>>
  \/ /\ pc[t] = "pcas" /\ (IF head = r[t].p /\ tag = r[t].g THEN head' = r[t].x /\ tag' = Bump(tag) /\ Go(t, "idle") ELSE Go(t, "pload") /\ UNCHANGED <<head, tag>>)
     /\ UNCHANGED <<nx, grown, flag, r, own, left, bad>>
Done == \A t \in Threads : pc[t] = "idle" /\ left[t] = 0
Next == (\E t \in Threads : Step(t)) \/ (Done /\ UNCHANGED vars)
\* promises
NeverTwice == ~bad
Pushing == {r[t].x : t \in {u \in Threads : pc[u] \in {"pload", "plink", "pcas"}}}
RECURSIVE Walk(_, _)
Walk(b, k) == IF b <= 0 \/ k = 0 THEN {} ELSE {b} \cup Walk(nx[b], k - 1)
Free == Walk(head, Cardinality(Blocks) + 1)
FreeIsFree == \A b \in Free : own[b] = 0 /\ b \notin Pushing
Settled == \A t \in Threads : pc[t] = "idle"
Nothinglost == Settled => (Free \cup {b \in Blocks : own[b] # 0}) = 1..(grown * Chunk)
=============================================================================
