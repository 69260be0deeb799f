------------------------------ MODULE XmlTrace ------------------------------
EXTENDS XmlSpec, TraceIO
VARIABLES run, l
vars == <<doc, run, l>>
e == Ev(run, l)
Is(op) == e.op = op
TInit == run \in 1..Len(Runs) /\ l = 1 /\ doc = [Nothing EXCEPT !.n = XmlName]
P == e.a[1]
New(n) == [Nothing EXCEPT !.n = n]
(* what the real document shows of an element: <<name, data, int, float, attributes, children, lookups by name, of attributes by name>> *)
RECURSIVE Shows(_, _, _)
Shows(o, x, top) == /\ o[1] = x.n
                    /\ (top \/ (o[2] = x.v /\ o[3] = x.i /\ o[4] = x.f))
                    /\ o[5] = [k \in 1..Len(x.a) |-> <<x.a[k].n, x.a[k].v, x.a[k].i, x.a[k].f>>]
                    /\ \A k \in 1..Len(o[7]) : o[7][k][2] = Chain(x.c, o[7][k][1], Len(x.c))
                    /\ \A k \in 1..Len(o[8]) : o[8][k][2] = Index(x.a, o[8][k][1]) - 1
                    /\ Len(o[6]) = Len(x.c) /\ \A k \in 1..Len(x.c) : Shows(o[6][k], x.c[k], FALSE)
Step == \/ Is("AddNode") /\ AddNode(P, New(e.a[2]))
        \/ Is("AddCopy") /\ AddNode(P, At(doc, e.a[2]))
        \/ Is("Graft") /\ LET x == Content(e.a[2], 1, <<>>, <<>>) IN x[3] > Len(e.a[2]) /\ Len(x[2]) = 1 /\ AddNode(P, x[2][1])
        \/ Is("AddAttr") /\ AddAttr(P, [n |-> e.a[2], v |-> e.a[3], i |-> e.a[4], f |-> e.a[5]])
        \/ Is("RemoveNode") /\ RemoveNode(P, e.a[2] + 1, e.r[1])
        \/ Is("RemoveNodeN") /\ RemoveNode(P, Index(At(doc, P).c, e.a[2]), e.r[1])
        \/ Is("RemoveAttr") /\ RemoveAttr(P, e.a[2] + 1, e.r[1])
        \/ Is("RemoveAttrN") /\ RemoveAttr(P, Index(At(doc, P).a, e.a[2]), e.r[1])
        \/ Is("SetStr") /\ SetData(P, e.a[2], IntOf(e.a[2]), FloatOf(e.a[2]))
        \/ Is("SetInt") /\ Number(e.r[1]) = e.a[2] /\ SetData(P, e.r[1], e.a[2], e.a[2])
        \/ Is("SetName") /\ doc' = [doc EXCEPT !.n = e.a[1]]
        \/ Is("Clear") /\ Clear(P)
        \/ Is("Assign") /\ Assign(P, e.a[2])
        \/ Is("Renew") /\ UNCHANGED doc                                                        \* copied, moved or assigned: the same document
        \/ Is("Read") /\ LET x == Doc(e.a[1]) IN x[2] # 0 /\ doc' = x[1]
        \/ Is("Write") /\ Written(e.r[1], doc, e.a[1]) /\ UNCHANGED doc
Observed == Shows(e.s, doc', TRUE)
TNext == \/ More(run, l) /\ Step /\ Observed /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
