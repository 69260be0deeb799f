------------------------------ MODULE AniTrace ------------------------------
EXTENDS AniSpec, TraceIO
VARIABLES run, l
vars == <<ani, pl, run, l>>
e == Ev(run, l)
Is(op) == e.op = op
TInit == run \in 1..Len(Runs) /\ l = 1 /\ AInit
Tr == e.a[1]
Fr == IF Tr = "i" THEN [t |-> e.a[2], v |-> e.a[3], d |-> e.a[4]] ELSE [t |-> e.a[2], v |-> e.a[3]]
Log(q) == [k \in 1..Len(q) |-> [o |-> q[k][1], v |-> q[k][2], id |-> q[k][3]]]
Frames(q, tr) == [k \in 1..Len(q) |-> IF tr = "i" THEN [t |-> q[k][1], v |-> q[k][2], d |-> q[k][3]] ELSE [t |-> q[k][1], v |-> q[k][2]]]
\* progress along a Bezier easing curve in units of 1/4096 (to within rounding), 0..8 eighths of the way
Bez(j, p1, p2) == 3 * (8 - j) * (8 - j) * j * p1 + 3 * (8 - j) * j * j * p2 + 8 * j * j * j      \* of 4096
Eased == LET a == e.a[1] b == e.a[2] j == e.a[3] s == IF e.a[6] THEN Bez(j, e.a[4], e.a[5]) ELSE 512 * j
             w == 4096 * (a + e.a[7]) + (b - a) * s IN e.r[1] - w \in -8..8
Step == \/ Is("Add") /\ AddTo(Tr, Fr, e.r[1] + 1)
        \/ Is("Set") /\ LET q == Frames(e.a[2], Tr) IN Sorted(q) /\ ani' = [ani EXCEPT ![Tr] = q] /\ UNCHANGED pl
        \/ Is("Remove") /\ RemoveFrom(Tr, e.a[2] + 1, e.r[1])
        \/ Is("SetLength") /\ ani' = [ani EXCEPT !.len = e.a[1]] /\ UNCHANGED pl
        \/ Is("SetLoop") /\ ani' = [ani EXCEPT !.loop = e.a[1]] /\ UNCHANGED pl
        \/ Is("SetF") /\ ani' = [ani EXCEPT !.f = e.a[1]] /\ UNCHANGED pl
        \/ Is("Renew") /\ UNCHANGED av                                            \* copied, moved or assigned: the same animation
        \/ Is("Player") /\ pl' = [Rest EXCEPT !.init = e.a[1]] /\ UNCHANGED ani
        \/ Is("SetValues") /\ pl' = [pl EXCEPT !.init = e.a[1]] /\ UNCHANGED ani
        \/ Is("Interpolate") /\ Interpolate(e.a[1], e.r[1], e.r[2], e.r[3], Log(e.r[4]))
        \/ Is("Reset") /\ Reset(Log(e.r[1]))
        \/ Is("SetTime") /\ SetTime(e.a[1], Log(e.r[1]))
        \/ Is("Ease") /\ Eased /\ UNCHANGED av
        \/ Is("Destroy") /\ Closes(Log(e.r[1]), pl.act, FALSE) /\ pl' = Rest /\ UNCHANGED ani
Observed == IF Is("Ease") THEN TRUE ELSE
            /\ e.s.len = Length(ani') /\ e.s.loop = ani'.loop /\ e.s.time = pl'.time /\ e.s.init = pl'.init
            /\ Frames(e.s.d, "d") = ani'.d /\ Frames(e.s.s, "s") = ani'.s /\ Frames(e.s.i, "i") = ani'.i
            /\ e.s.be = <<IF ani'.d = <<>> THEN 0 ELSE ani'.d[1].t, IF ani'.d = <<>> THEN 0 ELSE ani'.d[Len(ani'.d)].t>>
TNext == \/ More(run, l) /\ Step /\ Observed /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
