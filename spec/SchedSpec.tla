----------------------------- MODULE SchedSpec ------------------------------
(* Scheduler: events due at a time, fired by Update in order of due time, exactly once, never early.    *)
(* The machine clock may do anything; each scheduler has its own time, which advances only in Update and *)
(* never backwards.  A callback may add events (to any scheduler) and may ask to be rescheduled.         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Objs, Ts, MaxEv, MaxTime
VARIABLES clock, sch, upd, cur, nid, hist
\* sch[o] = [time, last, pend]; pend is a set of [id, due, k] (k tells apart events with the same id)
\* upd: scheduler being updated or 0; cur: the event whose callback runs, or {} ; nid: fresh tag
sv == <<clock, sch, upd, cur, nid>>
New == [time |-> 0, last |-> clock, pend |-> {}]
Init == clock = 0 /\ sch = [o \in Objs |-> New] /\ upd = 0 /\ cur = {} /\ nid = 1 /\ hist = <<>>
Tick(d) == clock' = clock + d /\ UNCHANGED <<sch, upd, cur, nid>>
Begin(o) == /\ upd = 0 /\ upd' = o
            /\ sch' = [sch EXCEPT ![o].time = @ + (IF clock > sch[o].last THEN clock - sch[o].last ELSE 0),
                                  ![o].last = IF clock > @ THEN clock ELSE @]
            /\ UNCHANGED <<clock, cur, nid>>
Add(o, id, t) == /\ sch' = [sch EXCEPT ![o].pend = @ \cup {[id |-> id, due |-> sch[o].time + t, k |-> nid]}] /\ nid' = nid + 1
                 /\ UNCHANGED <<clock, upd, cur>>
Due(o) == {p \in sch[o].pend : p.due <= sch[o].time}
Firsts(o) == {p \in Due(o) : \A r \in Due(o) : p.due <= r.due}
Fire(o, p) == /\ upd = o /\ cur = {} /\ p \in Firsts(o) /\ cur' = {p}
              /\ sch' = [sch EXCEPT ![o].pend = @ \ {p}] /\ UNCHANGED <<clock, upd, nid>>
FireEnd(o, r) == /\ upd = o /\ cur # {} /\ cur' = {} /\ nid' = nid + 1
                 /\ sch' = IF r > 0 THEN [sch EXCEPT ![o].pend = @ \cup {[id |-> p.id, due |-> sch[o].time + r, k |-> nid] : p \in cur}] ELSE sch
                 /\ UNCHANGED <<clock, upd>>
Done(o) == upd = o /\ cur = {} /\ Due(o) = {} /\ upd' = 0 /\ UNCHANGED <<clock, sch, cur, nid>>
Copy(o, p) == upd = 0 /\ sch' = [sch EXCEPT ![o] = sch[p]] /\ UNCHANGED <<clock, upd, cur, nid>>
Move(o, p) == upd = 0 /\ o # p /\ sch' = [sch EXCEPT ![o] = sch[p], ![p].pend = {}] /\ UNCHANGED <<clock, upd, cur, nid>>
\* hist of the model: for every fired event, <<id, due, time of firing>>
Next == \/ \E d \in Ts \cup {-1} : Tick(d) /\ clock + d <= MaxTime /\ clock + d >= -1 /\ upd = 0 /\ UNCHANGED hist
        \/ \E o \in Objs : (Begin(o) \/ Done(o)) /\ UNCHANGED hist
        \/ \E o \in Objs, t \in Ts : nid <= MaxEv /\ Add(o, nid, t) /\ UNCHANGED hist
        \/ \E o \in Objs, p \in UNION {sch[x].pend : x \in Objs} : Fire(o, p) /\ hist' = Append(hist, <<o, p.id, p.due, sch[o].time>>)
        \/ \E o \in Objs, r \in Ts : (r > 0 => nid <= MaxEv) /\ FireEnd(o, r) /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<sv, hist>>
NeverEarly == \A i \in 1..Len(hist) : hist[i][3] <= hist[i][4]
InOrder == \A i, j \in 1..Len(hist) : i < j /\ hist[i][1] = hist[j][1] /\ hist[i][4] = hist[j][4] => hist[i][3] <= hist[j][3]
\* an event fires again only if it was rescheduled: later due time, later firing time
OncePerDue == \A i, j \in 1..Len(hist) : i < j /\ hist[i][1] = hist[j][1] /\ hist[i][2] = hist[j][2] => hist[i][4] < hist[j][3]
NothingOverdue == \A o \in Objs : upd = 0 => Due(o) = {} \/ \E p \in Due(o) : p.due >= sch[o].time
Short == Len(hist) <= 4
=============================================================================
