----------------------------- MODULE IniTrace -----------------------------
EXTENDS IniSpec, TraceIO
VARIABLES st, pre, run, l      \* st[o]: storage o; pre[o]: comments in front of the first section
vars == <<st, pre, run, l>>
e == Ev(run, l)
Is(op) == e.op = op
TInit == run \in 1..Len(Runs) /\ l = 1 /\ st = <<Gone, Gone>> /\ pre = <<{}, {}>>
o == e.a[1]
d == st[o].d
Put(x) == st' = [st EXCEPT ![o] = Doc(x)] /\ UNCHANGED pre
AsSet(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Build(_, _)          \* lines <<0, comment>>, <<1, name, comment>>, <<2, key, value, comment>> -> <<document, position of the current section, comments before>>
Build(g, acc) == IF g = <<>> THEN acc ELSE
  LET x == Head(g) IN Build(Tail(g),
    CASE x[1] = 0 -> IF acc[2] = 0 THEN <<acc[1], 0, acc[3] \cup {x[2]}>> ELSE <<[acc[1] EXCEPT ![acc[2]].cm = @ \cup {x[2]}], acc[2], acc[3]>>
      [] x[1] = 1 -> LET dd == AddSec(acc[1], x[2], {x[3]}) p == At(dd, x[2][1]) IN <<dd, p[Len(p)], acc[3]>>
      [] x[1] = 2 -> LET b == IF acc[2] = 0 THEN <<AddSec(acc[1], <<0, 0>>, {}), 1>> ELSE <<acc[1], acc[2]>> IN <<[b[1] EXCEPT ![b[2]].e = AddEnt(@, x[2], x[3], x[4])], b[2], acc[3]>>)
ValInt == <<1, 0, 0, 31, -7, 3, 0, 0, 0, 0, 2000000000>>     \* the integers the table of values in the driver stands for
SecOf(x) == [n |-> x[1], e |-> [j \in 1..Len(x[3]) |-> [k |-> x[3][j][1], v |-> x[3][j][2], c |-> 0]], cm |-> {}]
NoC(x) == [i \in 1..Len(x) |-> [n |-> x[i].n, e |-> [j \in 1..Len(x[i].e) |-> [x[i].e[j] EXCEPT !.c = 0]], cm |-> {}]]
\* observed list of sections x agrees with document y: names, instance numbers, entries, their integer reading
Same(x, y) == /\ [i \in 1..Len(x) |-> SecOf(x[i])] = NoC(y)
              /\ \A i \in 1..Len(x) : x[i][2] = Cardinality({j \in 1..(i - 1) : y[j].n[1] = y[i].n[1]})
              /\ \A i \in 1..Len(x) : \A j \in 1..Len(x[i][3]) : LET v == x[i][3][j][2] IN IF v \in 1..Len(ValInt) THEN x[i][3][j][3] = ValInt[v] ELSE FALSE
Step == \/ Is("Load") /\ LET b == Build(e.a[2], <<<<>>, 0, {}>>) IN st' = [st EXCEPT ![o] = Doc(b[1])] /\ pre' = [pre EXCEPT ![o] = b[3]]
        \/ Is("AddSection") /\ Put(AddSec(d, e.a[2], {})) /\ e.r = <<Len(At(d, e.a[2][1]))>>
        \/ Is("RemoveSection") /\ LET can == CanEdit(d, e.a[2][1], e.a[3]) IN e.r = <<can>> /\ Put(IF can THEN RemSec(d, e.a[2][1], e.a[3]) ELSE d)
        \/ Is("EditEntry") /\ LET x == Edit(d, e.a[2], e.a[3], e.a[4], e.a[5], e.a[6]) IN e.r = <<x[1]>> /\ Put(x[2])
        \* what is there is edited; a missing entry is added, in a new section if the section is missing as well
        \/ Is("EditAddEntry") /\ LET si == IF Has(d, e.a[2][1], e.a[6]) THEN e.a[6] ELSE -1
                                     ki == IF HasEnt(d, e.a[2][1], e.a[6], e.a[3][1], e.a[5]) THEN e.a[5] ELSE -1
                                     x == Edit(d, e.a[2], e.a[3], e.a[4], ki, si) IN e.r = <<x[1]>> /\ Put(x[2])
        \/ Is("Get") /\ UNCHANGED <<st, pre>> /\ e.r[1] = Len(At(d, e.a[2][1]))
             /\ e.r[2] = (IF Has(d, e.a[2][1], e.a[5]) THEN Len(EAt(d[Pos(d, e.a[2][1], e.a[5])].e, e.a[3][1])) ELSE -1)
             /\ (\A i \in 1..Len(e.r[3]) : e.r[3][i] = IF HasEnt(d, e.a[2][1], e.a[5], e.a[3][1], e.a[4]) THEN d[Pos(d, e.a[2][1], e.a[5])].e[EPos(d, e.a[2][1], e.a[5], e.a[3][1], e.a[4])].v ELSE -1)
        \* the written file, loaded again: the same content, and the comments of everything that is still there
        \/ Is("Save") /\ UNCHANGED <<st, pre>> /\ View([i \in 1..Len(e.r[1]) |-> SecOf(e.r[1][i])]) = View(NoC(d)) /\ (Comments(d) \cup pre[o]) \subseteq AsSet(e.r[2]) /\ Len(e.r[2]) = Cardinality(AsSet(e.r[2]))
        \* edits thrown away: the file still holds what was there before them
        \/ Is("Discard") /\ UNCHANGED <<st, pre>> /\ View([i \in 1..Len(e.r[1]) |-> SecOf(e.r[1][i])]) = View([i \in 1..Len(e.a[2]) |-> SecOf(e.a[2][i])])
        \/ Is("Copy") /\ st' = [st EXCEPT ![o] = st[e.a[2]]] /\ pre' = [pre EXCEPT ![o] = pre[e.a[2]]]      \* storage o becomes a copy of the other
        \/ Is("Move") /\ st' = [st EXCEPT ![o] = st[e.a[2]], ![e.a[2]] = Gone] /\ pre' = [pre EXCEPT ![o] = pre[e.a[2]]]
        \/ Is("Drop") /\ st' = [st EXCEPT ![o] = Gone] /\ UNCHANGED pre
Observed == \A i \in 1..2 : IF st'[i].gone THEN e.s[i].gone ELSE ~e.s[i].gone /\ e.s[i].ok /\ Same(e.s[i].d, st'[i].d)
TNext == \/ More(run, l) /\ Step /\ Observed /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
