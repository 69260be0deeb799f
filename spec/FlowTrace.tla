----------------------------- MODULE FlowTrace ------------------------------
EXTENDS FlowSpec, TraceIO
VARIABLES run, l, N, E, orig   \* N: nodes (flow) or <<node, demand>> (circulation); E: edges; orig: the problem as given
vars == <<net, run, l, N, E, orig>>
e == Ev(run, l)
Is(op) == e.op = op
TInit == run \in 1..Len(Runs) /\ l = 1 /\ N = <<>> /\ E = <<>> /\ orig = <<>> /\ net = 0
Shape(x) == [i \in 1..Len(x) |-> <<x[i][1], x[i][2], x[i][3]>>]        \* everything but the flow
Load == N' = e.s.n /\ E' = e.s.e
MaxFlow(s, t) == /\ Shape(e.s.e) = Shape(E) /\ Feasible(Range(N), e.s.e, s, t) /\ Maximum(e.s.e, s, t)
\* circulation edges: <<from, to, capacity, flow, lower>>; demand = required inflow minus outflow
Dem(NN, n) == LET i == CHOOSE j \in 1..Len(NN) : NN[j][1] = n IN NN[i][2]
LowSum(X, S) == LET F[i \in 0..Len(X)] == IF i = 0 THEN 0 ELSE F[i-1] + (IF i \in S THEN X[i][5] ELSE 0) IN F[Len(X)]
Lower == /\ e.s.e = [i \in 1..Len(E) |-> <<E[i][1], E[i][2], E[i][3] - E[i][5], E[i][4], 0>>]
         /\ e.s.n = [i \in 1..Len(N) |-> <<N[i][1], N[i][2] + LowSum(E, Outs(E, N[i][1])) - LowSum(E, Ins(E, N[i][1]))>>]
SumN(NN) == LET F[i \in 0..Len(NN)] == IF i = 0 THEN 0 ELSE F[i-1] + NN[i][2] IN F[Len(NN)]
Circ(s, t, tot) ==
  /\ tot = SumN(N) /\ s # t /\ \A i \in 1..Len(N) : N[i][1] \notin {s, t}
  /\ Range(e.s.n) = Range(N) \cup {<<s, 0>>, <<t, 0>>} /\ Len(e.s.n) = Len(N) + 2
  /\ SameBag(e.s.e, E \o SelectSeq([i \in 1..Len(N) |-> IF N[i][2] < 0 THEN <<s, N[i][1], -N[i][2], 0, 0>> ELSE <<N[i][1], t, N[i][2], 0, 0>>], LAMBDA x : x[3] > 0))
NodeSet == {N[i][1] : i \in 1..Len(N)}
CFlow(s, t) == /\ [i \in 1..Len(E) |-> <<E[i][1], E[i][2], E[i][3], E[i][5]>>] = [i \in 1..Len(e.s.e) |-> <<e.s.e[i][1], e.s.e[i][2], e.s.e[i][3], e.s.e[i][5]>>]
               /\ e.s.n = N /\ Feasible(NodeSet, e.s.e, s, t) /\ Maximum(e.s.e, s, t)
\* when the added source is saturated and demands balance, flow + lower bound solves the problem as given
Saturated(s) == \A i \in Outs(E, s) : E[i][3] = E[i][4]
Solved(NN, X, F) == /\ \A i \in 1..Len(X) : X[i][5] <= F[i] /\ F[i] <= X[i][3]
                    /\ \A i \in 1..Len(NN) : LET G == [j \in 1..Len(X) |-> <<X[j][1], X[j][2], X[j][3], F[j]>>] IN -Net(G, NN[i][1]) = NN[i][2]
CDone(s, t) == LET rest == SelectSeq(E, LAMBDA x : x[1] # s /\ x[2] # t) IN
               /\ SameBag(e.s.e, rest) /\ Range(e.s.n) = {x \in Range(N) : x[1] \notin {s, t}}
               /\ (Saturated(s) /\ SumN(orig[1]) = 0 /\ Shape(e.s.e) = [i \in 1..Len(orig[2]) |-> <<orig[2][i][1], orig[2][i][2], orig[2][i][3] - orig[2][i][5]>>]) =>
                    Solved(orig[1], orig[2], [i \in 1..Len(orig[2]) |-> e.s.e[i][4] + orig[2][i][5]])
Step == \/ Is("Net") /\ Load /\ UNCHANGED orig
        \/ Is("MaxFlow") /\ e.s.n = N /\ MaxFlow(e.a[1], e.a[2]) /\ Load /\ UNCHANGED orig
        \/ Is("CNet") /\ Load /\ orig' = <<e.s.n, e.s.e>>
        \/ Is("Lower") /\ Lower /\ Load /\ UNCHANGED orig
        \/ Is("Circ") /\ Circ(e.r[1], e.r[2], e.r[3]) /\ Load /\ UNCHANGED orig
        \/ Is("CFlow") /\ CFlow(e.a[1], e.a[2]) /\ Load /\ UNCHANGED orig
        \/ Is("CDone") /\ CDone(e.a[1], e.a[2]) /\ Load /\ UNCHANGED orig
TNext == \/ More(run, l) /\ Step /\ l' = l + 1 /\ UNCHANGED <<run, net>>
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
