----------------------------- MODULE GraphTrace -----------------------------
EXTENDS GraphSpec, TraceIO
VARIABLES run, l
vars == <<g, run, l>>
e == Ev(run, l)
Is(op) == e.op = op
TInit == run \in 1..Len(Runs) /\ l = 1 /\ g = <<Empty, Empty>>
\* nodes added by building from a matrix get whatever fresh indices the graph reports
Build(o, n, M, nv, void) ==
  LET N == e.s.g[o] k == Len(g[o].n)
      new == [i \in 1..n |-> <<N[k + i][1], nv[i]>>]
      cells == SelectSeq([c \in 1..(n * n) |-> <<((c - 1) \div n) + 1, ((c - 1) % n) + 1, M[c]>>], LAMBDA x : x[3] # 0)
  IN /\ Len(N) = k + n /\ (\A i \in 1..n : new[i][1] \notin Idx(o)) /\ \A i, j \in 1..n : i # j => new[i][1] # new[j][1]
     /\ Put(o, [n |-> g[o].n \o new, e |-> g[o].e \o [c \in 1..Len(cells) |-> <<new[cells[c][1]][1], new[cells[c][2]][1], IF void THEN 0 ELSE cells[c][3]>>]])
Matrix(o, void, n, M, nv) ==
  /\ n = Len(g[o].n) /\ Len(M) = n * n /\ nv = [i \in 1..n |-> g[o].n[i][2]]
  /\ \A i, j \in 1..n : LET S == {x \in Range(g[o].e) : x[1] = g[o].n[i][1] /\ x[2] = g[o].n[j][1]} c == M[((i - 1) * n) + j]
                        IN IF S = {} THEN c = -7 ELSE IF void THEN c = 1 ELSE \E x \in S : x[3] = c
Step == \/ Is("AddNode") /\ AddNode(e.a[1], e.r[1], e.a[2])
        \/ Is("AddEdge") /\ AddEdge(e.a[1], e.a[2], e.a[3], e.a[4])
        \/ Is("RemoveEdge") /\ RemoveEdge(e.a[1], <<e.a[2], e.a[3], e.a[4]>>)
        \/ Is("RemoveNode") /\ RemoveNode(e.a[1], e.a[2])
        \/ Is("Reset") /\ Reset(e.a[1])
        \/ Is("FromMatrix") /\ Build(e.a[1], e.a[2], e.a[3], e.a[4], e.a[5])
        \/ Is("ToMatrix") /\ e.r[4] = Len(g[e.a[1]].n) /\ Matrix(e.a[1], e.a[2], e.r[1], e.r[2], e.r[3]) /\ UNCHANGED g
        \/ Is("BFS") /\ BFS(e.a[1], e.a[2], e.a[3], e.r[1]) /\ UNCHANGED g
        \/ Is("Move") /\ Move(e.a[1], e.a[2])
        \/ Is("End") /\ e.r[1] = 0 /\ UNCHANGED g
View(o) == /\ Len(e.s.g[o]) = Len(g'[o].n)
           /\ \A i \in 1..Len(e.s.g[o]) : LET x == e.s.g[o][i] IN
                /\ <<x[1], x[2]>> = g'[o].n[i]
                /\ SameBag(x[3], LET S == SelectSeq(g'[o].e, LAMBDA y : y[1] = x[1]) IN [j \in 1..Len(S) |-> <<S[j][2], S[j][3]>>])
                /\ SameBag(x[4], LET S == SelectSeq(g'[o].e, LAMBDA y : y[2] = x[1]) IN [j \in 1..Len(S) |-> <<S[j][1], S[j][3]>>])
Observed == IF Is("End") \/ Is("Reset") THEN TRUE ELSE e.s.ok /\ View(1) /\ View(2) /\ (e.s.live # -1 => e.s.live = Len(g'[1].e) + Len(g'[2].e))
TNext == \/ More(run, l) /\ Step /\ Observed /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
