------------------------------ MODULE JsonMC ------------------------------
(* The format can carry what the property asks: for every small value and both layouts, the text a writer following the   *)
(* escaping rules produces is one document meaning that value, and documents follow each other in a stream unambiguously. *)
EXTENDS JsonSpec, FiniteSets
Esc(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 47 -> <<92, 47>> [] c = 8 -> <<92, 98>> [] c = 12 -> <<92, 102>>
            [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>> [] c = 1 -> <<92, 117, 48, 48, 48, 49>> [] OTHER -> <<c>>
RECURSIVE EscAll(_), W(_, _), Join(_, _)
EscAll(s) == IF s = <<>> THEN <<>> ELSE Esc(Head(s)) \o EscAll(Tail(s))
Q(s) == <<34>> \o EscAll(s) \o <<34>>
Join(ts, sep) == IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o sep \o Join(Tail(ts), sep)
W(v, p) == LET nl == IF p THEN <<10, 9>> ELSE <<>> IN
  CASE v[1] = "s" -> Q(v[2])
    [] v[1] \in {"i", "d"} -> v[2]
    [] v[1] = "b" -> (IF v[2] = 1 THEN TrueW ELSE FalseW)
    [] v[1] = "n" -> NullW
    [] v[1] = "a" -> <<91>> \o Join([k \in 1..Len(v[2]) |-> W(v[2][k], p)], <<44>>) \o <<93>>
    [] v[1] = "o" -> <<123>> \o Join([k \in 1..Len(v[2]) |-> nl \o Q(v[2][k][1]) \o <<58, 32>> \o W(v[2][k][2], p)], <<44>>) \o nl \o <<125>>
Strs == {<<>>, <<34>>, <<92, 110>>, <<47, 10>>, <<93, 44>>, <<125>>, <<195, 169>>, <<1>>}
Leaf == {<<"s", x>> : x \in Strs} \cup {<<"i", <<48>>>>, <<"i", <<45, 49, 50>>>>, <<"d", <<48, 46, 53>>>>, <<"b", 0>>, <<"b", 1>>, <<"n", 0>>}
Keys == {<<>>, <<34, 58>>, <<97>>}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Cont(S) == {<<"a", x>> : x \in Seqs(S, 2)} \cup {<<"o", x>> : x \in Seqs(Keys \X S, 1)} \cup {<<"o", << <<k1, v>>, <<k2, w>> >> >> : k1 \in Keys, k2 \in Keys, v \in S, w \in {<<"n", 0>>, <<"s", <<34>>>>}}
D1 == Cont(Leaf)
Small == {<<"a", <<>>>>, <<"o", <<>>>>, <<"a", << <<"b", 1>> >>>>, <<"o", << <<<<34>>, <<"i", <<55>>>> >> >>>>}
D2 == Cont(Small \cup {<<"n", 0>>, <<"s", <<93>>>>})
Docs == D1 \cup D2 \cup {<<"s", x>> : x \in Strs}
MaxDocs == 1
MCInit == JInit
MCWrite == Len(docs) < 2 /\ \E v \in (IF docs = <<>> THEN Docs ELSE Small \cup {<<"s", x>> : x \in Strs}), p \in BOOLEAN : Write(v, W(v, p))
MCParse == docs # <<>> /\ LET p == Val(buf, 1) IN Parse(p[1], Len(buf) - p[2] + 1)
MCNext == MCWrite \/ MCParse
RECURSIVE ReadAll(_, _)
ReadAll(t, i) == IF Skip(t, i) > Len(t) THEN <<>> ELSE LET r == Val(t, i) IN IF r[2] = 0 THEN <<"bad">> ELSE <<r[1]>> \o ReadAll(t, r[2])
Carried == ReadAll(buf, 1) = docs
(* every small document can be written, in either layout *)
Expressible == docs # <<>> \/ \A v \in Docs, p \in BOOLEAN : IsDoc(W(v, p), v)
=============================================================================
