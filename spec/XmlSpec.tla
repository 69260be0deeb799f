------------------------------ MODULE XmlSpec ------------------------------
(* A document is a tree of named elements.  Each keeps its children and its attributes in the order they were added, at    *)
(* most one attribute of a name; an element is reached by its path (the index at each level).  Looking a name up gives the   *)
(* child of that name added last, and from it the others, newest first.                                                     *)
EXTENDS XmlText, FiniteSets
VARIABLE doc
RECURSIVE At(_, _), Put(_, _, _)
At(d, p) == IF p = <<>> THEN d ELSE At(d.c[Head(p) + 1], Tail(p))
Put(d, p, x) == IF p = <<>> THEN x ELSE [d EXCEPT !.c[Head(p) + 1] = Put(@, Tail(p), x)]
Cut(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Index(s, n) == LET K == {k \in 1..Len(s) : s[k].n = n} IN IF K = {} THEN 0 ELSE CHOOSE k \in K : \A j \in K : j <= k     \* the last of that name
RECURSIVE Chain(_, _, _)
Chain(s, n, k) == IF k = 0 THEN <<>> ELSE (IF s[k].n = n THEN <<k - 1>> ELSE <<>>) \o Chain(s, n, k - 1)
Edit(p, x) == doc' = Put(doc, p, x)
AddNode(p, x) == LET e == At(doc, p) IN Edit(p, [e EXCEPT !.c = Append(@, x)])
AddAttr(p, x) == LET e == At(doc, p) k == Index(e.a, x.n) IN Edit(p, [e EXCEPT !.a = IF k = 0 THEN Append(@, x) ELSE [@ EXCEPT ![k] = x]])
RemoveNode(p, k, r) == LET e == At(doc, p) IN
                       IF k \in 1..Len(e.c) THEN r /\ Edit(p, [e EXCEPT !.c = Cut(@, k)]) ELSE ~r /\ UNCHANGED doc
RemoveAttr(p, k, r) == LET e == At(doc, p) IN
                       IF k \in 1..Len(e.a) THEN r /\ Edit(p, [e EXCEPT !.a = Cut(@, k)]) ELSE ~r /\ UNCHANGED doc
SetData(p, v, i, f) == Edit(p, [At(doc, p) EXCEPT !.v = v, !.i = i, !.f = f])
(* Clear empties an element of children and attributes; whether its data goes too is left open *)
Clear(p) == LET e == At(doc, p) IN \/ Edit(p, [e EXCEPT !.c = <<>>, !.a = <<>>])
                                   \/ Edit(p, [e EXCEPT !.c = <<>>, !.a = <<>>, !.v = <<>>, !.i = 0, !.f = 0])
Assign(p, q) == Edit(p, At(doc, q))
(* the text of a document reads back as that document *)
Written(t, d, pretty) == LET x == Doc(t) IN x[2] # 0 /\ Same([x[1] EXCEPT !.v = <<>>], [d EXCEPT !.v = <<>>, !.n = IF d.a = <<>> THEN XmlName ELSE @], pretty)
=============================================================================
