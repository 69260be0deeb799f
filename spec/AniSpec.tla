------------------------------ MODULE AniSpec ------------------------------
(* Keyframe animation.  ani: three tracks of frames sorted by time (discrete calls, a smoothly changing value, intervals *)
(* that begin and end), an optional fixed length and a loop point.  A player has its own time; Interpolate moves it       *)
(* forward and makes every call that became due: discrete frames in order, each once per pass; the smooth value at the    *)
(* new time; intervals opened when they begin and closed, in order of their ends, when they end.  Times in units of 1/4,  *)
(* smooth values in units of 1/8.                                                                                         *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES ani, pl
\* ani = [d: <<[t, v]>>, s: <<[t, v]>>, i: <<[t, v, d]>>, len, loop, f] ; f: how the smooth track interpolates
\* pl  = [time, cd: discrete frames called, ci: intervals begun, act: set of [id, end], init]
av == <<ani, pl>>
Max2(a, b) == IF a > b THEN a ELSE b
SeqMax(q) == LET F[k \in 0..Len(q)] == IF k = 0 THEN 0 ELSE Max2(F[k-1], q[k]) IN F[Len(q)]
Ends(a) == [k \in 1..Len(a.d) |-> a.d[k].t] \o [k \in 1..Len(a.s) |-> a.s[k].t] \o [k \in 1..Len(a.i) |-> a.i[k].t + a.i[k].d]
Length(a) == IF a.len < 0 THEN SeqMax(Ends(a)) ELSE a.len
New == [d |-> <<>>, s |-> <<>>, i |-> <<>>, len |-> -1, loop |-> -1, f |-> 0]
Rest == [time |-> 0, cd |-> 0, ci |-> 0, act |-> {}, init |-> 0]
AInit == ani = New /\ pl = Rest
Sorted(q) == \A k \in 1..(Len(q) - 1) : q[k].t <= q[k+1].t
Ins(q, k, x) == SubSeq(q, 1, k - 1) \o <<x>> \o SubSeq(q, k, Len(q))
Del(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
AddTo(tr, x, k) == k \in 1..(Len(ani[tr]) + 1) /\ ani' = [ani EXCEPT ![tr] = Ins(@, k, x)] /\ Sorted(ani'[tr]) /\ UNCHANGED pl
RemoveFrom(tr, k, ok) == ok = (k <= Len(ani[tr])) /\ ani' = (IF ok THEN [ani EXCEPT ![tr] = Del(@, k)] ELSE ani) /\ UNCHANGED pl
Upto(q, t) == Cardinality({k \in 1..Len(q) : q[k].t <= t})
Due(q, c, t) == SubSeq(q, c + 1, Upto(q, t))
Vals(q) == [k \in 1..Len(q) |-> q[k].v]
\* f = 0: steps; 1: linear; 2: steps relative to init; 3: linear relative to init.  Values at frames are whole.
At(a, k, num, den, init) ==                      \* between frame k-1 (the initial value before the first) and frame k
  LET p == IF k = 1 THEN init ELSE a.s[k-1].v q == a.s[k].v IN
  IF a.f = 0 THEN 8 * (IF num = den THEN q ELSE p) ELSE IF a.f = 1 THEN (8 * (p * (den - num) + q * num)) \div den
  ELSE IF a.f = 2 THEN 8 * (init + (IF num = den THEN q ELSE p)) ELSE 8 * init + ((8 * (p * (den - num) + q * num)) \div den)
Smooth(a, t, init) == LET n == Len(a.s) c == Upto(a.s, t) h == IF c = 0 THEN 0 ELSE a.s[c].t IN
  IF c = n THEN (IF n > 1 THEN <<At(a, n, 1, 1, init)>> ELSE <<>>) ELSE <<At(a, c + 1, t - h, a.s[c+1].t - h, init)>>
\* a stretch of closings: exactly the ones due, earliest end first
Closes(log, due, ordered) == /\ Len(log) = Cardinality(due) /\ {log[k].id : k \in 1..Len(log)} = {x.id : x \in due} /\ \A k \in 1..Len(log) : log[k].o = 0
                             /\ ordered => \A j, k \in 1..Len(log) : j < k => \A x, y \in due : (x.id = log[j].id /\ y.id = log[k].id) => x.end <= y.end
Opens(log, due) == Len(log) = Len(due) /\ \A k \in 1..Len(log) : log[k].o = 1 /\ log[k].v = due[k].v
\* one pass to time t over the intervals: what is open before and after, given the log of calls
Opened(log, due, act) == act \cup {[id |-> log[k].id, end |-> due[k].t + due[k].d] : k \in 1..Len(due)}
Pass(log, due, act, t) ==                        \* << accepted, calls used, open afterwards >>
  IF Len(log) < Len(due) \/ ~Opens(SubSeq(log, 1, Len(due)), due) THEN <<FALSE, 0, {}>> ELSE
  LET o == Opened(log, due, act) dead == {x \in o : x.end <= t} n == Len(due) + Cardinality(dead) IN
  IF Cardinality(o) # Cardinality(act) + Len(due) \/ Len(log) < n \/ ~Closes(SubSeq(log, Len(due) + 1, n), dead, TRUE) THEN <<FALSE, 0, {}>> ELSE <<TRUE, n, o \ dead>>
Interpolate(dt, ret, D, S, I) ==
  LET L == Length(ani) IN
  IF pl.time >= L /\ ani.loop < 0 THEN ~ret /\ D = <<>> /\ S = <<>> /\ I = <<>> /\ UNCHANGED av
  ELSE LET t1 == pl.time + dt
           again == t1 >= L /\ ani.loop >= 0
           t2 == IF again THEN ((t1 - L) % (L - ani.loop)) + ani.loop ELSE t1
           p1 == Pass(I, Due(ani.i, pl.ci, t1), pl.act, t1)
           k == p1[2] + Cardinality(p1[3])
           p2 == Pass(SubSeq(I, k + 1, Len(I)), Due(ani.i, 0, t2), {}, t2)
       IN /\ ret = (t2 < L) /\ p1[1]
          /\ D = Vals(Due(ani.d, pl.cd, t1)) \o (IF again THEN Vals(Due(ani.d, 0, t2)) ELSE <<>>)
          /\ S = Smooth(ani, t1, pl.init) \o (IF again THEN Smooth(ani, t2, pl.init) ELSE <<>>)
          /\ (IF again THEN Len(I) = k + p2[2] /\ Closes(SubSeq(I, p1[2] + 1, k), p1[3], FALSE) /\ p2[1] ELSE Len(I) = p1[2])
          /\ pl' = [pl EXCEPT !.time = t2, !.cd = Upto(ani.d, t2), !.ci = Upto(ani.i, t2), !.act = IF again THEN p2[3] ELSE p1[3]] /\ UNCHANGED ani
Back == [pl EXCEPT !.time = 0, !.cd = 0, !.ci = 0, !.act = {}]
Reset(I) == Closes(I, pl.act, FALSE) /\ pl' = Back /\ UNCHANGED ani
SetTime(t, I) == /\ Closes(I, IF t < pl.time THEN pl.act ELSE {}, FALSE) /\ pl' = [(IF t < pl.time THEN Back ELSE pl) EXCEPT !.time = t] /\ UNCHANGED ani
=============================================================================
