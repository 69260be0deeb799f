------------------------------- MODULE UbjMC -------------------------------
(* As JsonMC, for UBJSON: plain, counted and typed layouts of every small value are read back as that value. *)
EXTENDS UbjSpec, FiniteSets
RECURSIVE W(_, _), Cat(_)
Cat(ts) == IF ts = <<>> THEN <<>> ELSE Head(ts) \o Cat(Tail(ts))
L(n) == <<85, n>>
Tags(v) == {(IF v[1] = 91 THEN v[2][k] ELSE v[2][k][2])[1] : k \in 1..Len(v[2])}
Kids(v, lay, ty) == Cat([k \in 1..Len(v[2]) |-> LET x == IF v[1] = 91 THEN v[2][k] ELSE v[2][k][2] IN
                         (IF v[1] = 91 THEN <<>> ELSE L(Len(v[2][k][1])) \o v[2][k][1]) \o (IF ty THEN <<>> ELSE <<x[1]>>) \o W(x, lay)])
W(v, lay) ==                                                                    \* without the tag; lay: 0 plain, 1 counted, 2 typed when possible
  IF v[1] \in {83, 72} THEN L(Len(v[2])) \o v[2]
  ELSE IF v[1] \notin {91, 123} THEN v[2]
  ELSE IF lay = 0 THEN Kids(v, lay, FALSE) \o <<v[1] + 2>>
  ELSE IF lay = 2 /\ Cardinality(Tags(v)) = 1 THEN <<36, CHOOSE t \in Tags(v) : TRUE, 35>> \o L(Len(v[2])) \o Kids(v, lay, TRUE)
  ELSE <<35>> \o L(Len(v[2])) \o Kids(v, lay, FALSE)
Leaf == {<<90, <<>>>>, <<84, <<>>>>, <<70, <<>>>>, <<105, <<255>>>>, <<85, <<93>>>>, <<73, <<0, 125>>>>, <<83, <<>>>>, <<83, <<93, 78>>>>, <<67, <<65>>>>}
Keys == {<<>>, <<125>>, <<97, 0>>}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Cont(S) == {<<91, x>> : x \in Seqs(S, 2)} \cup {<<123, x>> : x \in Seqs(Keys \X S, 1)}
D1 == Cont(Leaf)
Small == {<<91, <<>>>>, <<123, <<>>>>, <<91, << <<84, <<>>>>, <<84, <<>>>> >>>>, <<123, << <<<<125>>, <<85, <<7>>>> >> >>>>, <<90, <<>>>>}
D2 == Cont(Small \cup {<<83, <<93>>>>})
Docs == Leaf \cup D1 \cup D2
MCInit == UInit
MCWrite == Len(docs) < 2 /\ \E v \in (IF docs = <<>> THEN Docs ELSE Small), lay \in 0..2 : Write(v, <<v[1]>> \o W(v, lay))
MCParse == docs # <<>> /\ LET p == UVal(buf, 1, 0) IN Parse(p[1], Len(buf) - p[2] + 1)
MCNext == MCWrite \/ MCParse
RECURSIVE ReadAll(_, _)
ReadAll(t, i) == IF i > Len(t) THEN <<>> ELSE LET r == UVal(t, i, 0) IN IF r[2] = 0 THEN <<"bad">> ELSE <<r[1]>> \o ReadAll(t, r[2])
Carried == ReadAll(buf, 1) = docs
Expressible == docs # <<>> \/ \A v \in Docs, lay \in 0..2 : Whole(<<v[1]>> \o W(v, lay)) /\ UVal(<<v[1]>> \o W(v, lay), 1, 0)[1] = v
=============================================================================
