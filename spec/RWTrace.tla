------------------------------ MODULE RWTrace ------------------------------
(* Histories of calls and returns recorded from the real lock under controlled interleavings.  cs is the set of    *)
(* configurations of RWSpec that explain the history so far; a history is rejected when none is left.              *)
EXTENDS RWSpec, TraceIO
VARIABLES cs, run, l
vars == <<cs, run, l>>
e == Ev(run, l)
Is(op) == e.op = op
RECURSIVE Close(_, _)
Close(all, new) == LET nx == (UNION {UNION {Steps(c, t) : t \in Threads} : c \in new}) \ all IN IF nx = {} THEN all ELSE Close(all \cup nx, nx)
TInit == run \in 1..Len(Runs) /\ l = 1 /\ cs = {RWStart}
Blocking == {"Lock", "Unlock", "RLock", "RUnlock", "Upgrade", "Downgrade"}
Fits(c, t, r) == Ph(c, t) = "d" /\ (c.p[t][1] \in Blocking \/ c.p[t][3] = r)
Step == \/ Is("i") /\ cs' = {Call(c, e.a[1], e.a[2]) : c \in {d \in cs : Legal(d, e.a[1], e.a[2])}}
        \/ Is("r") /\ cs' = {[c EXCEPT !.p[e.a[1]] = Idle] : c \in {d \in Close(cs, cs) : Fits(d, e.a[1], e.r[1])}}
        \/ Is("End") /\ e.r = <<1, 0>> /\ cs' = {c \in cs : Free(c)}
TNext == \/ More(run, l) /\ Step /\ cs' # {} /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
Excl == \A c \in cs : Exclusive(c)
=============================================================================
