------------------------------ MODULE MemTrace ------------------------------
(* Histories of the real allocators.  Configuration: kind of allocator. *)
EXTENDS MemSpec, TraceIO
VARIABLES run, l
vars == <<live, peak, ever, run, l>>
e == Ev(run, l)
C == Runs[run].cfg
Is(op) == e.op = op
TInit == /\ run \in 1..Len(Runs) /\ l = 1 /\ MemInit
\* Alloc: a = <<owner, id, size, class>>, r = <<start, end, aligned, grew>>
DoAlloc(o, id, c, s, t, al, grew) ==
  /\ Alloc(o, id, c, s, t) /\ al
  /\ (C.kind = "block" /\ grew => MayGrow(o, c))
  /\ (C.kind = "cache" /\ c # 0 => MustReuse(o, c, s))
  /\ (C.kind = "cacheMT" /\ grew /\ c # 0 => MustReuse(o, c, s))      \* there "grew" marks allocations made while nothing else runs
  /\ (C.kind = "ring" /\ grew => LiveOf(o) # {} \/ \A k \in DOMAIN peak : k[1] = o => k[2] < c)
Step == \/ Is("Alloc") /\ DoAlloc(e.a[1], e.a[2], e.a[4], e.r[1], e.r[2], e.r[3], e.r[4])
        \/ Is("Dealloc") /\ Dealloc(e.a[1])
        \* Realloc: a = <<owner, old id, new id, size, class>>, r = <<start, end, aligned, grew, prefix kept>>; the old block is gone, the new may reuse it
        \/ Is("Realloc") /\ e.r[5] /\ e.r[3] /\ e.a[2] \in DOMAIN live
           /\ LET b == [s |-> e.r[1], t |-> e.r[2], c |-> e.a[5], o |-> e.a[1]]
                  rest == Without(live, {e.a[2]}) IN
              /\ \A i \in DOMAIN rest : Disjoint(b, rest[i])
              /\ live' = Put(rest, e.a[3], b)
              /\ peak' = Put(peak, <<e.a[1], e.a[5]>>, MaxM(Peak(e.a[1], e.a[5]), Cardinality(LiveIn(e.a[1], e.a[5])) + 1))
              /\ ever' = Put(ever, <<e.a[1], e.a[5]>>, Ever(e.a[1], e.a[5]) \cup {e.r[1]})
              /\ (C.kind = "cache" /\ e.a[5] # 0 => MustReuse(e.a[1], e.a[5], e.r[1]))
        \/ Is("Clear") /\ Clear(e.a[1])
        \/ Is("Move") /\ MoveTo(e.a[1], e.a[2])
        \* Cap (nothing else running): a = <<>>, r = <<bytes the pool served without asking for memory, bytes it owns, chunks it owns>>; every block it ever had is available
        \/ Is("Cap") /\ e.r[1] + 96 * e.r[3] >= e.r[2] /\ UNCHANGED mvars
        \/ Is("End") /\ e.r[1] = 0 /\ live' = <<>> /\ UNCHANGED <<peak, ever>>      \* allocators destroyed: all memory returned
Observed == IF e.op = "Cap" THEN TRUE ELSE e.s.bad = <<>> /\ Cardinality(DOMAIN live') = e.s.n
TNext == \/ More(run, l) /\ Step /\ Observed /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
