------------------------------ MODULE FlowSpec ------------------------------
(* Networks: N nodes, E a sequence of edges <<from, to, capacity, flow>>.  A flow is feasible when it     *)
(* respects capacities and is conserved everywhere but at s and t; it is maximum iff the residual graph   *)
(* has no path from s to t.  The bounded model checks that certificate against the definition (the best   *)
(* value over all feasible flows), for every small network.                                               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Nodes, MaxCap, MaxEdges
SumE(E, S, k) == LET F[i \in 0..Len(E)] == IF i = 0 THEN 0 ELSE F[i-1] + (IF i \in S THEN E[i][k] ELSE 0) IN F[Len(E)]
Outs(E, n) == {i \in 1..Len(E) : E[i][1] = n}
Ins(E, n) == {i \in 1..Len(E) : E[i][2] = n}
Net(E, n) == SumE(E, Outs(E, n), 4) - SumE(E, Ins(E, n), 4)
Feasible(N, E, s, t) == /\ \A i \in 1..Len(E) : E[i][4] >= 0 /\ E[i][4] <= E[i][3]
                        /\ \A n \in N \ {s, t} : Net(E, n) = 0
RStep(E, S) == S \cup {E[i][2] : i \in {j \in 1..Len(E) : E[j][1] \in S /\ E[j][4] < E[j][3]}}
                 \cup {E[i][1] : i \in {j \in 1..Len(E) : E[j][2] \in S /\ E[j][4] > 0}}
RECURSIVE RReach(_, _)
RReach(E, S) == LET T == RStep(E, S) IN IF T = S THEN S ELSE RReach(E, T)
Maximum(E, s, t) == t \notin RReach(E, {s})
\* --- bounded model: one state per network and flow assignment
VARIABLES net
Edges == Nodes \X Nodes \X (0..MaxCap) \X {0}
Init == net = <<>>
Next == Len(net) < MaxEdges /\ \E x \in Edges : net' = Append(net, x)
Flows == [1..Len(net) -> 0..MaxCap]
With(f) == [i \in 1..Len(net) |-> <<net[i][1], net[i][2], net[i][3], f[i]>>]
Src == CHOOSE n \in Nodes : TRUE
Snk == CHOOSE n \in Nodes : n # Src
Good == {f \in Flows : Feasible(Nodes, With(f), Src, Snk)}
CertificateIsMaximum == \A f \in Good : Maximum(With(f), Src, Snk) <=> \A h \in Good : Net(With(h), Src) <= Net(With(f), Src)
=============================================================================
