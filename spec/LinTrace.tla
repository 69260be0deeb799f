------------------------------ MODULE LinTrace ------------------------------
EXTENDS LinSpec, TraceIO
VARIABLES run, l
vars == <<v, m, run, l>>
e == Ev(run, l)
Is(op) == e.op = op
N == Runs[run].cfg.n
Zero == [i \in 1..Runs[run].cfg.n |-> [j \in 1..Runs[run].cfg.n |-> 0]]
TInit == run \in 1..Len(Runs) /\ l = 1 /\ v = <<Zero[1], Zero[1]>> /\ m = <<Zero, Zero>>
a1 == e.a[1]
a2 == e.a[2]
a3 == e.a[3]
a4 == e.a[4]
Letter(c) == CASE c = "x" -> 1 [] c = "y" -> 2 [] c = "z" -> 3 [] c = "w" -> 4
Step == \/ Is("LoadV") /\ SetV(a1, a2)
        \/ Is("LoadM") /\ SetM(a1, a2)
        \/ Is("VV") /\ SetV(a1, Zip(a2, v[a3], v[a4]))                 \* v1 = v3 op v4, or v1 op= v4
        \/ Is("VS") /\ SetV(a1, Map1(a2, v[a3], a4))
        \/ Is("SV") /\ SetV(a1, [k \in 1..N |-> Op2(a2, a3, v[a4][k])])
        \/ Is("VDiv") /\ Quot(e.r[1], v[a2], v[a3]) /\ SetV(a1, e.r[1])
        \/ Is("VDivS") /\ Quot(e.r[1], v[a2], [k \in 1..N |-> a3]) /\ SetV(a1, e.r[1])
        \/ Is("Abs") /\ SetV(a1, [k \in 1..N |-> Abs1(v[a2][k])])
        \/ Is("CopyV") /\ SetV(a1, v[a2])
        \/ Is("Dot") /\ e.r[1] = Dot(v[a1], v[a2]) /\ Same
        \/ Is("DistSq") /\ e.r[1] = (LET d == Zip("-", v[a1], v[a2]) IN Dot(d, d)) /\ Same
        \/ Is("Dist") /\ (LET d == Zip("-", v[a1], v[a2]) IN e.r[1] >= 0 /\ e.r[1] * e.r[1] = Dot(d, d)) /\ Same
        \/ Is("Len") /\ e.r[1] >= 0 /\ e.r[1] * e.r[1] = Dot(v[a1], v[a1]) /\ Same
        \/ Is("Norm") /\ a2 * a2 = Dot(v[a1], v[a1]) /\ e.r[1] = v[a1] /\ Same      \* the unit vector times the length
        \/ Is("Cross") /\ (IF N = 3 THEN e.r[1] = Cross3(v[a1], v[a2]) ELSE e.r[1] = Cross2(v[a1], v[a2])) /\ Same
        \/ Is("Swizzle") /\ e.r[1] = [k \in 1..Len(a2) |-> v[a1][Letter(a2[k])]] /\ Same
        \/ Is("Cmp") /\ e.r[1] = Compare(v[a1], v[a2]) /\ Same
        \/ Is("CmpS") /\ e.r[1] = CompareS(v[a1], a2) /\ Same
        \/ Is("Turn") /\ e.r[1] = (LET d == Zip("-", v[a1], a3) IN Zip("+", ColMul(Rot2(a2), d), a3)) /\ Same
        \/ Is("MM") /\ SetM(a1, MZip(a2, m[a3], m[a4]))
        \/ Is("MS") /\ SetM(a1, MMap(a2, m[a3], a4))
        \/ Is("SM") /\ SetM(a1, [i \in 1..N |-> [k \in 1..N |-> Op2(a2, a3, m[a4][i][k])]])
        \/ Is("Mul") /\ SetM(a1, Mul(m[a2], m[a3]))
        \/ Is("RowMul") /\ SetV(a1, RowMul(v[a2], m[a3]))
        \/ Is("ColMul") /\ SetV(a1, ColMul(m[a3], v[a2]))
        \/ Is("Trans") /\ SetM(a1, Trans(m[a2]))
        \/ Is("Diag") /\ SetM(a1, Diag(v[a2]))
        \/ Is("Ident") /\ SetM(a1, Ident(N))
        \/ Is("CopyM") /\ SetM(a1, m[a2])
        \/ Is("Neg") /\ SetM(a1, MMap("*", m[a2], -1))
        \/ Is("Outer") /\ SetM(a1, Outer(v[a2], v[a3]))
        \/ Is("Det") /\ e.r[1] = Det(m[a1]) /\ Same
        \/ Is("Inv") /\ Inverse(m[a2], e.r[1], a3) /\ SetM(a1, e.r[2])
           /\ e.r[2] = (IF a3 = 1 THEN e.r[1] ELSE m[a1])
        \/ Is("EqM") /\ e.r[1] = (m[a1] = m[a2]) /\ Same
        \/ Is("EqMS") /\ e.r[1] = (\A i \in 1..N : \A k \in 1..N : m[a1][i][k] = a2) /\ Same
        \/ Is("Rot") /\ SetM(a1, IF a4 THEN Trans(Rot(N, a2, a3)) ELSE Rot(N, a2, a3))
        \/ Is("Rot2") /\ SetM(a1, IF a3 THEN Trans(Rot2(a2)) ELSE Rot2(a2))
        \/ Is("Shift") /\ SetM(a1, IF a3 THEN Trans(Shift(N, a2)) ELSE Shift(N, a2))
        \/ Is("Affine") /\ SetM(a1, IF e.a[5] THEN Trans(Affine(N, a2, a3, a4)) ELSE Affine(N, a2, a3, a4))
        \/ Is("Quat") /\ (LET q == QRot(a1) IN \A i, k \in 1..3 : e.r[1][i][k] = q[i][k]) /\ (\A k \in 1..4 : e.r[1][4][k] = (IF k = 4 THEN a2 ELSE 0) /\ e.r[1][k][4] = (IF k = 4 THEN a2 ELSE 0)) /\ a2 = Dot(a1, a1) /\ Same
        \/ Is("Rect") /\ e.r[1] = Mul(a1, a2) /\ e.r[2] = Trans(a1) /\ e.r[3] = ColMul(a1, Col(a2, 1)) /\ e.r[4] = RowMul(a2[1], Trans(a2)) /\ Same
        \/ Is("Spline") /\ e.r[1] = Dot(RowMul(<<a1 * a1 * a1, a1 * a1, a1, 1>>, a3), a2) /\ Same
Observed == e.s.v = v' /\ e.s.m = m'
TNext == \/ More(run, l) /\ Step /\ Observed /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
