------------------------------- MODULE FifoMC -------------------------------
(* FifoSpec by itself: exactly-once, per-producer order, no invented items. *)
EXTENDS FifoSpec
CONSTANT MaxItem
VARIABLES c, pushed, got      \* items whose push took effect, in order; items whose pop took effect, in order
vars == <<c, pushed, got>>
Init == c = FStart /\ pushed = <<>> /\ got = <<>>
Used == {pushed[i] : i \in 1..Len(pushed)} \cup {c.p[t][2] : t \in {u \in Threads : c.p[u] # <<>>}}
Next == \E t \in Threads :
  \/ c.p[t] = <<>> /\ UNCHANGED <<pushed, got>> /\ (c' = FCall(c, t, "Pop", 0) \/ \E v \in 1..MaxItem : v \notin Used /\ c' = FCall(c, t, "Push", v))
  \/ Len(c.p[t]) = 3 /\ UNCHANGED <<pushed, got>> /\ c' = [c EXCEPT !.p[t] = <<>>]
  \/ \E d \in FSteps(c, t) :
       /\ c' = d
       /\ pushed' = (IF c.p[t][1] = "Push" THEN Append(pushed, c.p[t][2]) ELSE pushed)
       /\ got' = (IF c.p[t][1] = "Pop" /\ d.p[t][3] # Empty THEN Append(got, d.p[t][3]) ELSE got)
ExactlyOnce == pushed = got \o c.q
=============================================================================
