------------------------------ MODULE TraceIO ------------------------------
(* Histories recorded from the real code: one JSON object per line,                                    *)
(*   [cfg |-> configuration, ev |-> <<events>>], event = [op, a (arguments), r (results), s (projection)]. *)
(* Every trace specification starts one behaviour per recorded run; a behaviour that cannot consume     *)
(* its next event is a deadlock, i.e. a rejected history.  Completed runs stutter.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
Ev(run, l) == Runs[run].ev[l]
More(run, l) == l <= Len(Runs[run].ev)
SumSeq(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE F[i-1] + s[i] IN F[Len(s)]
Range(s) == {s[i] : i \in 1..Len(s)}
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
InsAt(s, i, v) == SubSeq(s, 1, i-1) \o <<v>> \o SubSeq(s, i, Len(s))      \* v becomes element i
RemAt(s, i) == SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))
Fill(n, v) == [i \in 1..n |-> v]
Resize(s, n, v) == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o Fill(n - Len(s), v)
Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
SameBag(s, t) == Len(s) = Len(t) /\ \A v \in Range(s) \cup Range(t) : Count(s, v) = Count(t, v)
=============================================================================
