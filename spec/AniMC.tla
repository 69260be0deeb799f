------------------------------- MODULE AniMC -------------------------------
(* Playing a few small animations in every way: steps of any size, skips, rewinds, loops. *)
EXTENDS AniSpec
CONSTANTS Steps, MaxCalls
VARIABLES nid, opened, closed, since    \* since: discrete frames called in this pass
mv == <<ani, pl, nid, opened, closed, since>>
D1 == <<[t |-> 0, v |-> 1], [t |-> 1, v |-> 2], [t |-> 1, v |-> 3], [t |-> 3, v |-> 4]>>
I1 == <<[t |-> 0, v |-> 1, d |-> 2], [t |-> 1, v |-> 2, d |-> 0], [t |-> 1, v |-> 3, d |-> 3]>>
S1 == <<[t |-> 0, v |-> 0], [t |-> 2, v |-> 8], [t |-> 3, v |-> 4]>>
Shapes == {[d |-> d, s |-> s, i |-> i, len |-> n, loop |-> lp, f |-> f] : d \in {<<>>, D1}, s \in {<<>>, S1}, i \in {<<>>, I1}, n \in {-1, 2, 5}, lp \in {-1, 0, 1}, f \in {1}}
MInit == ani \in {a \in Shapes : a.loop < Length(a)} /\ pl = Rest /\ nid = 0 /\ opened = {} /\ closed = {} /\ since = <<>>
RECURSIVE ByEnd(_)
ByEnd(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x.end < y.end \/ (x.end = y.end /\ x.id <= y.id) IN <<[o |-> 0, v |-> 0, id |-> x.id]>> \o ByEnd(S \ {x})
Opening(due, n) == [k \in 1..Len(due) |-> [o |-> 1, v |-> due[k].v, id |-> n + k]]
GenPass(due, act, t, n) == LET lg == Opening(due, n) o == Opened(lg, due, act) IN <<lg \o ByEnd({x \in o : x.end <= t}), {x \in o : x.end > t}, n + Len(due)>>
Play(dt) ==
  LET L == Length(ani) stop == pl.time >= L /\ ani.loop < 0 t1 == pl.time + dt again == t1 >= L /\ ani.loop >= 0
      t2 == IF again THEN ((t1 - L) % (L - ani.loop)) + ani.loop ELSE t1
      g1 == GenPass(Due(ani.i, pl.ci, t1), pl.act, t1, nid) g2 == GenPass(Due(ani.i, 0, t2), {}, t2, g1[3])
      I == IF stop THEN <<>> ELSE IF again THEN g1[1] \o ByEnd(g1[2]) \o g2[1] ELSE g1[1]
      d1 == Vals(Due(ani.d, pl.cd, t1)) d2 == Vals(Due(ani.d, 0, t2))
      sm == IF stop THEN <<>> ELSE Smooth(ani, t1, pl.init) \o (IF again THEN Smooth(ani, t2, pl.init) ELSE <<>>)
  IN /\ Interpolate(dt, IF stop THEN FALSE ELSE t2 < L, IF stop THEN <<>> ELSE d1 \o (IF again THEN d2 ELSE <<>>), sm, I)
     /\ nid' = (IF stop THEN nid ELSE IF again THEN g2[3] ELSE g1[3])
     /\ opened' = opened \cup {I[k].id : k \in {j \in 1..Len(I) : I[j].o = 1}} /\ closed' = closed \cup {I[k].id : k \in {j \in 1..Len(I) : I[j].o = 0}}
     /\ since' = (IF stop THEN since ELSE IF again THEN d2 ELSE since \o d1)
Rewind == LET I == ByEnd(pl.act) IN Reset(I) /\ closed' = closed \cup {I[k].id : k \in 1..Len(I)} /\ since' = <<>> /\ UNCHANGED <<nid, opened>>
Skip(t) == LET I == IF t < pl.time THEN ByEnd(pl.act) ELSE <<>> IN SetTime(t, I) /\ closed' = closed \cup {I[k].id : k \in 1..Len(I)} /\ since' = (IF t < pl.time THEN <<>> ELSE since) /\ UNCHANGED <<nid, opened>>
MNext == (\E dt \in Steps : Play(dt)) \/ Rewind \/ (\E t \in Steps : Skip(t))
\* some step of any size is always possible: the calls it must make exist
AlwaysPlays == \A dt \in Steps : ENABLED Play(dt)
OpenMatches == {x.id : x \in pl.act} = opened \ closed /\ closed \subseteq opened
OncePerPass == since = Vals(SubSeq(ani.d, 1, pl.cd))
Small == nid <= MaxCalls /\ pl.time <= 8
=============================================================================
