----------------------------- MODULE PoolModel ------------------------------
(* The block pool as built: a chunk list, a LIFO free list threaded through it, growth by the next Fibonacci-like  *)
(* step when the free list is empty, Clear consolidating all chunks.  Checked to refine MemSpec, with the     *)
(* growth restriction of MemSpec, for every history up to the bound.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxBlocks, Init0
VARIABLES mem,      \* next never-used block number (the heap the chunks come from)
          chunks,   \* sequence of chunk sizes (newest first)
          free,     \* free list: sequence of block numbers
          used,     \* function id -> block number
          peakn, everb, grew
pv == <<mem, chunks, free, used, peakn, everb, grew>>
fbnext(n) == n + n \div 2 + 1
Sum(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE F[i-1] + s[i] IN F[Len(s)]
Down(a, n) == [i \in 1..n |-> a + n - i]       \* blocks of a new chunk are pushed in address order
Ids == 1..MaxBlocks
Init == mem = Init0 /\ chunks = <<Init0>> /\ free = Down(0, Init0) /\ used = <<>> /\ peakn = 0 /\ everb = {} /\ grew = FALSE
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Allocate(id) ==
  /\ id \notin DOMAIN used
  /\ LET g == free = <<>>
         n == fbnext(chunks[1])
         fl == IF g THEN Down(mem, n) ELSE free IN
     /\ mem' = IF g THEN mem + n ELSE mem
     /\ chunks' = IF g THEN <<n>> \o chunks ELSE chunks
     /\ free' = Tail(fl)
     /\ used' = [x \in DOMAIN used \cup {id} |-> IF x = id THEN Head(fl) ELSE used[x]]
     /\ grew' = g
     /\ everb' = everb \cup {Head(fl)}
     /\ peakn' = IF Cardinality(DOMAIN used) + 1 > peakn THEN Cardinality(DOMAIN used) + 1 ELSE peakn
Free(id) == id \in DOMAIN used /\ free' = <<used[id]>> \o free /\ used' = Without(used, {id}) /\ grew' = FALSE /\ UNCHANGED <<mem, chunks, peakn, everb>>
ClearAll == /\ used' = <<>> /\ chunks' = <<Sum(chunks)>> /\ free' = Down(mem, Sum(chunks)) /\ mem' = mem + Sum(chunks)
            /\ everb' = {} /\ grew' = FALSE /\ UNCHANGED peakn
Next == (\E id \in Ids : Allocate(id) \/ Free(id)) \/ ClearAll
Bound == mem <= 14
Spec == Init /\ [][Next]_pv
\* refinement
Blk(b) == [s |-> <<0, b>>, t |-> <<0, b + 1>>, c |-> 1, o |-> 1]
M == INSTANCE MemSpec WITH live <- [i \in DOMAIN used |-> Blk(used[i])],
                           peak <- IF peakn = 0 THEN <<>> ELSE [k \in {<<1, 1>>} |-> peakn],
                           ever <- IF peakn = 0 THEN <<>> ELSE [k \in {<<1, 1>>} |-> {<<0, b>> : b \in everb}]
AbsNext == \/ \E id \in Ids : \E b \in 0..40 : M!Alloc(1, id, 1, <<0, b>>, <<0, b + 1>>) /\ (grew' => M!MayGrow(1, 1))
           \/ \E id \in Ids : M!Dealloc(id)
           \/ M!Clear(1)
Refines == [][AbsNext]_<<used, peakn, everb>>
Inv == /\ M!AllDisjoint /\ M!PeakOK
       /\ Cardinality({free[i] : i \in 1..Len(free)}) = Len(free)
       /\ \A i \in DOMAIN used : \A j \in 1..Len(free) : free[j] # used[i]
       /\ Len(free) + Cardinality(DOMAIN used) = Sum(chunks)          \* no block is ever lost
=============================================================================
