------------------------------- MODULE XmlMC -------------------------------
(* The tree of elements with a rendering of it: every document reached by edits reads back from its text as itself, and   *)
(* looking a name up agrees with the children.                                                                            *)
EXTENDS XmlSpec
Names == {<<97>>, <<98>>}
CONSTANTS Data, Most
DataSmall == {<<>>, <<60>>, <<32, 38, 97>>}
Init == doc = [Nothing EXCEPT !.n = XmlName]
RECURSIVE Size(_), SumSize(_), Paths(_), Esc(_), Text(_), Kids(_), As(_)
SumSize(c) == IF c = <<>> THEN 0 ELSE Size(Head(c)) + SumSize(Tail(c))
Size(d) == 1 + SumSize(d.c)
Paths(d) == {<<>>} \cup UNION {{<<k - 1>> \o p : p \in Paths(d.c[k])} : k \in 1..Len(d.c)}
Named(n, s) == [n |-> n, v |-> s, i |-> IntOf(s), f |-> FloatOf(s)]
Grow == Size(doc) < Most
Next == \E p \in Paths(doc) :
          \/ Grow /\ \E n \in Names : AddNode(p, [Nothing EXCEPT !.n = n])
          \/ Grow /\ \E q \in Paths(doc) : q # <<>> /\ AddNode(p, At(doc, q))
          \/ At(doc, p).a = <<>> /\ AddAttr(p, Named(<<97>>, <<62, 38, 34>>))
          \/ \E k \in 1..2, r \in BOOLEAN : RemoveNode(p, k, r)
          \/ \E k \in 1..1, r \in BOOLEAN : RemoveAttr(p, k, r)
          \/ \E s \in Data : p # <<>> /\ SetData(p, s, IntOf(s), Number(s))
          \/ Clear(p)
Small == Size(doc) <= Most 
Esc(s) == IF s = <<>> THEN <<>> ELSE
          (CASE Head(s) = 60 -> <<38, 108, 116, 59>> [] Head(s) = 62 -> <<38, 103, 116, 59>> [] Head(s) = 38 -> <<38, 97, 109, 112, 59>>
             [] Head(s) = 34 -> <<38, 35, 51, 52, 59>> [] OTHER -> <<Head(s)>>) \o Esc(Tail(s))
As(a) == IF a = <<>> THEN <<>> ELSE <<32>> \o Head(a).n \o <<61, 34>> \o Esc(Head(a).v) \o <<34>> \o As(Tail(a))
Kids(c) == IF c = <<>> THEN <<>> ELSE Text(Head(c)) \o Kids(Tail(c))
Text(d) == <<60>> \o d.n \o As(d.a) \o (IF d.v = <<>> /\ d.c = <<>> THEN <<47, 62>> ELSE <<62>> \o Esc(d.v) \o Kids(d.c) \o <<60, 47>> \o d.n \o <<62>>)
Whole(d) == (IF d.a = <<>> THEN <<>> ELSE <<60, 63>> \o d.n \o As(d.a) \o <<63, 62>>) \o Kids(d.c)
RoundTrip == LET x == Doc(Whole(doc)) IN x[2] # 0 /\ x[1].c = doc.c /\ x[1].a = doc.a /\ Written(Whole(doc), doc, FALSE) /\ Written(Whole(doc), doc, TRUE)
Lookup == \A p \in Paths(doc), n \in Names :
            LET x == At(doc, p) ch == Chain(x.c, n, Len(x.c)) k == Index(x.c, n) IN
            /\ (IF k = 0 THEN ch = <<>> ELSE Head(ch) = k - 1)
            /\ {ch[j] + 1 : j \in 1..Len(ch)} = {j \in 1..Len(x.c) : x.c[j].n = n}
            /\ \A j \in 1..Len(x.a) : Index(x.a, x.a[j].n) = j
=============================================================================
