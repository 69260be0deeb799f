------------------------------ MODULE JsonSpec ------------------------------
(* A stream of JSON documents.  buf is the text not read yet; docs the values still to come out of it, in order.        *)
(* Writing appends one document that means the value written; parsing takes exactly the first one, and yields it.       *)
EXTENDS JsonText
VARIABLES buf, docs
jvars == <<buf, docs>>
JInit == buf = <<>> /\ docs = <<>>
Write(v, text) == IsDoc(text, v) /\ buf' = buf \o text /\ docs' = Append(docs, v)
(* left: how much text is unread afterwards; blanks after a value may go with it *)
Parse(v, left) == /\ docs # <<>> /\ v = Head(docs) /\ docs' = Tail(docs)
                  /\ LET p == Val(buf, 1)[2] IN Len(buf) - left + 1 \in p..Skip(buf, p)
                  /\ buf' = SubSeq(buf, Len(buf) - left + 1, Len(buf))
(* a record read from a document: the members it names take their last value in it, the others keep what they had *)
RECURSIVE LastOf(_, _)
LastOf(ms, k) == IF ms = <<>> THEN <<>> ELSE IF ms[Len(ms)][1] = k THEN <<ms[Len(ms)][2]>> ELSE LastOf(SubSeq(ms, 1, Len(ms) - 1), k)
(* null says nothing; a number may come as a string, a truth value as a number *)
Conv(o, n) == IF n[1] = "n" THEN o ELSE IF o[1] = "i" /\ n[1] = "s" THEN <<"i", n[2]>> ELSE IF o[1] = "b" /\ n[1] = "i" THEN <<"b", IF n[2] = <<48>> THEN 0 ELSE 1>> ELSE n
Fields(old, ms) == [i \in 1..Len(old) |-> <<old[i][1], LET x == LastOf(ms, old[i][1]) IN IF x = <<>> THEN old[i][2] ELSE Conv(old[i][2], x[1])>>]
(* maps have no order: "h" fields *)
AsSet(ms) == {ms[i] : i \in 1..Len(ms)}
SameV(a, b) == IF a[1] = "h" \/ b[1] = "h" THEN a[1] \in {"h", "o"} /\ b[1] \in {"h", "o"} /\ Len(a[2]) = Len(b[2]) /\ AsSet(a[2]) = AsSet(b[2]) ELSE a = b
SameRec(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i][1] = b[i][1] /\ SameV(a[i][2], b[i][2])
WriteRec(rec, text) == LET r == Val(text, 1) IN r[2] # 0 /\ Skip(text, r[2]) = Len(text) + 1 /\ r[1][1] = "o" /\ SameRec(rec, r[1][2])
                       /\ buf' = buf \o text /\ docs' = Append(docs, r[1])
ParseRec(old, new, left) == /\ docs # <<>> /\ Head(docs)[1] = "o" /\ docs' = Tail(docs)
                            /\ SameRec(new, Fields(old, Head(docs)[2]))
                            /\ LET p == Val(buf, 1)[2] IN Len(buf) - left + 1 \in p..Skip(buf, p)
                            /\ buf' = SubSeq(buf, Len(buf) - left + 1, Len(buf))
=============================================================================
