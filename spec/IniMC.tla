------------------------------- MODULE IniMC -------------------------------
(* IniSpec by itself: the document and a line-by-line model of the file text, edited in parallel, always agree.     *)
EXTENDS IniSpec
CONSTANTS Names, Keys, Vals, MaxLines
MCN == {<<1, 1>>, <<2, 1>>}
MCK == {<<1, 1>>, <<2, 1>>}
VARIABLES d, f     \* f: the file as a sequence of lines: <<"s", name>>, <<"e", key, value>>, <<"c", number>>
vars == <<d, f>>
Init == \E start \in {<<>>, <<<<"c", 9>>, <<"s", <<1, 1>>>>, <<"c", 7>>, <<"e", <<1, 1>>, 1>>>>} :
          f = start /\ d = (IF start = <<>> THEN <<>> ELSE <<[n |-> <<1, 1>>, e |-> <<[k |-> <<1, 1>>, v |-> 1, c |-> 0]>>, cm |-> {7}]>>)
SecLines(c) == SelectSeq([i \in 1..Len(f) |-> i], LAMBDA i : f[i][1] = "s" /\ f[i][2][1] = c)
LastOf(i) == LET after == {j \in (i+1)..Len(f) : f[j][1] = "s"} IN IF after = {} THEN Len(f) ELSE (CHOOSE j \in after : \A k \in after : j <= k) - 1
EntLines(i, kc) == SelectSeq([j \in 1..Len(f) |-> j], LAMBDA j : j > i /\ j <= LastOf(i) /\ f[j][1] = "e" /\ f[j][2][1] = kc)
Next == \/ \E n \in Names : d' = AddSec(d, n, {}) /\ f' = Append(f, <<"s", n>>)
        \/ \E n \in Names, i \in 0..2 : CanEdit(d, n[1], i) /\ d' = RemSec(d, n[1], i) /\ LET a == SecLines(n[1])[i + 1] IN f' = SubSeq(f, 1, a - 1) \o SubSeq(f, LastOf(a) + 1, Len(f))
        \/ \E n \in Names, k \in Keys, v \in Vals, i \in 0..2 : CanEdit(d, n[1], i) /\ d' = Edit(d, n, k, v, -1, i)[2] /\ f' = Ins(f, LastOf(SecLines(n[1])[i + 1]), <<"e", k, v>>)
        \/ \E n \in Names, k \in Keys, v \in Vals, i \in 0..2, j \in 0..2 : HasEnt(d, n[1], i, k[1], j) /\ d' = Edit(d, n, k, v, j, i)[2]
             /\ f' = [f EXCEPT ![EntLines(SecLines(n[1])[i + 1], k[1])[j + 1]][3] = v]
        \/ \E n \in Names, k \in Keys, i \in 0..2, j \in 0..2 : HasEnt(d, n[1], i, k[1], j) /\ d' = Edit(d, n, k, Null, j, i)[2]
             /\ f' = Cut(f, EntLines(SecLines(n[1])[i + 1], k[1])[j + 1])
Bounded == Len(f) <= MaxLines
RECURSIVE Load(_, _)      \* what loading the file gives
Load(g, acc) == IF g = <<>> THEN acc[1] ELSE
  LET x == Head(g) IN Load(Tail(g),
    CASE x[1] = "s" -> LET dd == AddSec(acc[1], x[2], {}) p == At(dd, x[2][1]) IN <<dd, p[Len(p)]>>
      [] x[1] = "e" -> <<[acc[1] EXCEPT ![acc[2]].e = AddEnt(@, x[2], x[3], 0)], acc[2]>>
      [] x[1] = "c" -> acc)
Agree == View(Load(f, <<<<>>, 0>>)) = View(d) /\ Grouped(d)
=============================================================================
