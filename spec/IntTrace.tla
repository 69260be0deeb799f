------------------------------ MODULE IntTrace ------------------------------
EXTENDS IntSpec, TraceIO
VARIABLES run, l
vars == <<run, l>>
e == Ev(run, l)
Is(op) == e.op = op
TInit == run \in 1..Len(Runs) /\ l = 1
A1 == e.a[1]
A2 == e.a[2]
A3 == e.a[3]
A4 == e.a[4]
R1 == e.r[1]
Sgn(s) == IF Zero(s[2]) THEN 0 ELSE IF s[1] = 1 THEN -1 ELSE 1
Step == \/ Is("Count") /\ R1 = Cardinality(Ones(A1))
        \/ Is("Log2") /\ R1 = Log2(A1)
        \/ Is("Pow2") /\ Ones(R1) = {UpPow2(A1)}
        \/ Is("Sqrt") /\ IsSqrt(A1, R1)
        \/ Is("Div") /\ IsFloorDiv(A1, A2, R1)
        \/ Is("Mod") /\ IsMod(A1, A2, R1, e.r[2])
        \/ Is("Abs") /\ Same(R1, A1[2])
        \/ Is("Neg") /\ Same(R1[2], A1) /\ (Zero(A1) \/ R1[1] = A2)
        \/ Is("Sign") /\ R1 = (IF A1[1] = 1 /\ ~Zero(A1[2]) THEN -1 ELSE 1) /\ e.r[2] = Sgn(A1)
        \/ Is("Extract") /\ IsExtract(A1, A2, Len(A1[2]), A3, A4, R1)
        \/ Is("Mask") /\ Ones(R1) = RangeMask(A1, A2, A3)
        \/ Is("SetBit") /\ Ones(R1) = (IF A3 THEN Ones(A1) \cup Ones(A2) ELSE Ones(A1) \ Ones(A2))
        \/ Is("GetBit") /\ R1 = (A2 \in Ones(A1))
        \/ Is("Shift") /\ Ones(R1) = {k + A2 : k \in Ones(A1)} \cap 0..(Width(A1) - 1)
        \/ Is("Days") /\ R1 = Days(A1, A2, A3)
        \/ Is("Grow") /\ Lt(A1, R1)
        \/ Is("Before") /\ R1 = UpperBound(A1, A2, A3, A4) - 1
        \/ Is("After") /\ R1 = LowerBound(A1, A2, A3, A4)
        \/ Is("Exact") /\ (IF \E i \in (A2+1)..A3 : A1[i] = A4 THEN R1 >= A2 /\ R1 < A3 /\ A1[R1 + 1] = A4 ELSE R1 = -1)
        \/ Is("Shuffle") /\ SameBag(A1, R1)
        \/ Is("Bfs") /\ R1 = (LET o == Bfs(<<1>>, A1, A2) IN SubSeq(o, 1, IF A3 > 0 /\ A3 < Len(o) THEN A3 ELSE Len(o)))
        \/ Is("Fnv32") /\ R1 = Fnv32(A1)
        \/ Is("Fnv64") /\ R1 = Fnv64(A1)
        \/ Is("Var") /\ R1 = Len(A1) * SumSeq([i \in 1..Len(A1) |-> A1[i] * A1[i]]) - SumSeq(A1) * SumSeq(A1) /\ e.r[2] = SumSeq(A1) /\ e.r[3] = SumSeq(A1)
        \/ Is("Trunc") /\ R1 = (IF A1 < 0 THEN -((-A1) \div 4) ELSE A1 \div 4)
        \/ Is("Round") /\ LET q == A1 \div 4 m == A1 % 4 IN R1 = (IF m = 2 THEN (IF q % 2 = 0 THEN q ELSE q + 1) ELSE IF m = 3 THEN q + 1 ELSE q)
        \/ Is("Dist2") /\ R1 = (A1 - A3) * (A1 - A3) + (A2 - A4) * (A2 - A4)
        \/ Is("Width") /\ R1 = 1
TNext == \/ More(run, l) /\ Step /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
