----------------------------- MODULE FifoTrace -----------------------------
(* Call/return histories of the concurrent queues.  cs: the configurations that explain the history so far. *)
EXTENDS FifoSpec, TraceIO
VARIABLES cs, run, l
vars == <<cs, run, l>>
e == Ev(run, l)
Is(op) == e.op = op
RECURSIVE Close(_, _)
Close(all, new) == LET nx == (UNION {UNION {FSteps(c, t) : t \in Threads} : c \in new}) \ all IN IF nx = {} THEN all ELSE Close(all \cup nx, nx)
TInit == run \in 1..Len(Runs) /\ l = 1 /\ cs = {FStart}
Arg == IF e.a[3] = <<>> THEN 0 ELSE e.a[3][1]
Step == \/ Is("i") /\ cs' = {FCall(c, e.a[1], e.a[2], Arg) : c \in cs}
        \/ Is("r") /\ cs' = {[c EXCEPT !.p[e.a[1]] = <<>>] : c \in {d \in Close(cs, cs) : Len(d.p[e.a[1]]) = 3 /\ d.p[e.a[1]][3] = e.r[1]}}
        \/ Is("End") /\ e.r[1] = 0 /\ UNCHANGED cs        \* every item and node has been destroyed exactly once, all memory returned
TNext == \/ More(run, l) /\ Step /\ cs' # {} /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
