------------------------------ MODULE UbjSpec ------------------------------
(* A stream of UBJSON documents: buf is what is unread, docs the values still to come out of it.  Writing appends bytes  *)
(* that mean the value; parsing takes exactly the first value.  Records name their members and keep what is not named.   *)
EXTENDS UbjText
VARIABLES buf, docs
uvars == <<buf, docs>>
UInit == buf = <<>> /\ docs = <<>>
Whole(t) == LET r == UVal(t, 1, 0) IN r[2] = Len(t) + 1
Write(v, text) == Whole(text) /\ UVal(text, 1, 0)[1] = v /\ buf' = buf \o text /\ docs' = Append(docs, v)
Put(text) == Whole(text) /\ buf' = buf \o text /\ docs' = Append(docs, UVal(text, 1, 0)[1])
Take(left) == Len(buf) - left + 1 = UVal(buf, 1, 0)[2] /\ buf' = SubSeq(buf, Len(buf) - left + 1, Len(buf)) /\ docs' = Tail(docs)
Parse(v, left) == docs # <<>> /\ v = Head(docs) /\ Take(left)
RECURSIVE LastOf(_, _)
LastOf(ms, k) == IF ms = <<>> THEN <<>> ELSE IF ms[Len(ms)][1] = k THEN <<ms[Len(ms)][2]>> ELSE LastOf(SubSeq(ms, 1, Len(ms) - 1), k)
Fields(old, ms) == [i \in 1..Len(old) |-> <<old[i][1], LET x == LastOf(ms, old[i][1]) IN IF x = <<>> THEN old[i][2] ELSE x[1]>>]
AsSet(ms) == {ms[i] : i \in 1..Len(ms)}
SameV(a, b) == IF a[1] = 104 \/ b[1] = 104 THEN a[1] \in {104, 123} /\ b[1] \in {104, 123} /\ Len(a[2]) = Len(b[2]) /\ AsSet(a[2]) = AsSet(b[2]) ELSE a = b
SameRec(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i][1] = b[i][1] /\ SameV(a[i][2], b[i][2])
WriteRec(rec, text) == Whole(text) /\ LET v == UVal(text, 1, 0)[1] IN v[1] = 123 /\ SameRec(rec, Norm(v)[2]) /\ buf' = buf \o text /\ docs' = Append(docs, v)
ParseRec(old, new, left) == docs # <<>> /\ Head(docs)[1] = 123 /\ SameRec(new, Fields(old, Norm(Head(docs))[2])) /\ Take(left)
=============================================================================
