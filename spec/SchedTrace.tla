----------------------------- MODULE SchedTrace -----------------------------
EXTENDS SchedSpec, TraceIO
VARIABLES run, l, tm   \* tm: a stand-alone timer [time, last]
vars == <<clock, sch, upd, cur, nid, hist, run, l, tm>>
e == Ev(run, l)
Is(op) == e.op = op
TInit == /\ run \in 1..Len(Runs) /\ l = 1 /\ clock = 0 /\ sch = [o \in Objs |-> New] /\ upd = 0 /\ cur = {} /\ nid = 1 /\ hist = <<>> /\ tm = [time |-> 0, last |-> 0]
Pos(d) == IF d > 0 THEN d ELSE 0
Step == \/ /\ UNCHANGED tm
           /\ \/ Is("Tick") /\ Tick(e.a[1])
              \/ Is("Begin") /\ Begin(e.a[1])
              \/ Is("Add") /\ Add(e.a[1], e.a[2], e.a[3])
              \/ Is("Pre") /\ nid' = 3 /\ UNCHANGED <<clock, upd, cur>>
                 /\ sch' = [o \in Objs |-> [sch[o] EXCEPT !.pend = {[id |-> e.a[IF o = 1 THEN 1 ELSE 3], due |-> e.a[IF o = 1 THEN 2 ELSE 4], k |-> o]}]]
              \/ Is("Fire") /\ LET F == {p \in Firsts(e.a[1]) : p.id = e.a[2]} IN F # {} /\ Fire(e.a[1], CHOOSE p \in F : TRUE)
              \/ Is("FireEnd") /\ (\E p \in cur : p.id = e.a[2]) /\ FireEnd(e.a[1], e.a[3])
              \/ Is("Done") /\ Done(e.a[1])
              \/ Is("Copy") /\ Copy(e.a[1], e.a[2])
              \/ Is("Move") /\ Move(e.a[1], e.a[2])
              \/ Is("End") /\ e.r[1] = 0 /\ sch' = [o \in Objs |-> [sch[o] EXCEPT !.pend = {}]] /\ UNCHANGED <<clock, upd, cur, nid>>
        \/ /\ UNCHANGED sv
           /\ \/ Is("TUpdate") /\ LET d == Pos(clock - tm.last) IN tm' = [time |-> tm.time + d, last |-> tm.last + d] /\ \A i \in 1..3 : e.r[i] = d
              \/ Is("TOver") /\ tm' = [time |-> tm.time + e.a[1], last |-> clock] /\ e.r[1] = e.a[1] /\ e.r[2] = e.a[1]
              \/ Is("TReset") /\ tm' = [tm EXCEPT !.time = 0]
              \/ Is("TResetDelta") /\ tm' = [tm EXCEPT !.last = clock] /\ e.r[1] = 0 /\ e.r[2] = 0
\* lengths are observed only between calls (-1 marks an event seen from inside a callback)
Observed == /\ e.s.err = 0 /\ e.s.tok /\ (Is("End") \/ e.s.t = tm'.time)
            /\ \A o \in Objs : e.s.n[o] # -1 => e.s.n[o] = Cardinality(sch'[o].pend)
TNext == \/ More(run, l) /\ Step /\ Observed /\ l' = l + 1 /\ UNCHANGED <<run, hist>>
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
