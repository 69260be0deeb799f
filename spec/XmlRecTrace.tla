---------------------------- MODULE XmlRecTrace ----------------------------
(* A record as an element: scalars are attributes (a child element of that name counts as well), every entry of an array is *)
(* a child element of the array's name, in order, and a nested record is a child element; what names no field is skipped.    *)
EXTENDS XmlText, TraceIO
VARIABLES run, l
vars == <<run, l>>
e == Ev(run, l)
Is(op) == e.op = op
TInit == run \in 1..Len(Runs) /\ l = 1
N(c) == <<c>>
RECURSIVE Named(_, _)
Named(s, n) == IF s = <<>> THEN <<>> ELSE (IF Head(s).n = n THEN <<Head(s)>> ELSE <<>>) \o Named(Tail(s), n)
All(x, n) == Named(x.a, n) \o Named(x.c, n)
Last(q) == q[Len(q)]
INum(x, n) == LET q == All(x, n) IN IF q = <<>> THEN 0 ELSE Last(q).i
Chars(x, n) == LET q == All(x, n) IN IF q = <<>> THEN <<>> ELSE Last(q).v
False == <<102, 97, 108, 115, 101>>
Yes(v) == v.v = True \/ (v.v # False /\ v.i # 0)
Flag(x, n) == LET q == All(x, n) IN IF q = <<>> THEN FALSE ELSE Yes(Last(q))
(* quarters, of a plain decimal *)
Quarters(v) == LET p == Until(v, 1, {46})
                   neg == Ch(v, 1) = 45
                   w == IF FloatOf(v) < 0 THEN 0 - FloatOf(v) ELSE FloatOf(v)
                   fr == SubSeq(v, p + 1, Len(v))
                   q == CASE fr = <<50, 53>> -> 1 [] fr = <<53>> -> 2 [] fr = <<55, 53>> -> 3 [] OTHER -> 0 IN
               IF neg THEN 0 - (4 * w + q) ELSE 4 * w + q
Quart(x, n) == LET q == All(x, n) IN IF q = <<>> THEN 0 ELSE Quarters(Last(q).v)
Ints(q) == [k \in 1..Len(q) |-> q[k].i]
Strs(q) == [k \in 1..Len(q) |-> q[k].v]
LeafOf(x) == <<INum(x, N(110)), Chars(x, N(115))>>
SubOf(x) == LET t == Named(x.c, N(116)) IN <<INum(x, N(107)), [k \in 1..Len(t) |-> LeafOf(t[k])]>>
Sub0 == <<0, <<>>>>
Fixed(q) == [k \in 1..3 |-> IF k <= Len(q) THEN q[k].i ELSE 0]
NSub == <<115, 117, 98>>
NList == <<108, 105, 115, 116>>
RecOf(x) == LET s == Named(x.c, NSub) li == Named(x.c, NList) u == Named(x.c, N(117)) IN
            <<INum(x, N(105)), INum(x, N(119)), Chars(x, N(115)), Flag(x, N(98)), Quart(x, N(103)), Ints(Named(x.c, N(100))), Strs(Named(x.c, N(102))),
              Fixed(Named(x.c, N(120))), IF s = <<>> THEN Sub0 ELSE SubOf(s[1]), [k \in 1..Len(li) |-> SubOf(li[k])],
              IF Len(u) < 3 THEN <<0, <<>>, FALSE>> ELSE <<u[1].i, u[2].v, Yes(u[3])>>>>
Empty == RecOf(Nothing)
Rec == <<114, 101, 99>>
Means(t, r) == LET d == Doc(t) x == Named(d[1].c, Rec) IN d[2] # 0 /\ Len(x) = 1 /\ RecOf(x[1]) = r
Step == \/ Is("Round") /\ Means(e.r[1], e.a[1]) /\ e.r[2] = e.a[1]
        \/ Is("Parse") /\ IF e.a[2] THEN e.r[1] = Empty ELSE Means(e.a[1], e.r[1])
TNext == \/ More(run, l) /\ Step /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
