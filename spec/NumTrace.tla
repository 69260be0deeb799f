------------------------------ MODULE NumTrace ------------------------------
EXTENDS NumSpec, TraceIO
VARIABLES run, l
vars == <<r, run, l>>
e == Ev(run, l)
Is(op) == e.op = op
c == Runs[run].cfg
TInit == run \in 1..Len(Runs) /\ l = 1 /\ r = Runs[run].cfg.init
a1 == e.a[1]
a2 == e.a[2]
a3 == e.a[3]
a4 == e.a[4]
Same == UNCHANGED r
LaneStep == \/ Is("Bin") /\ Set(a1, Lanes(c.w, a2, r[a3], r[a4]))
            \/ Is("BinS") /\ Set(a1, LanesS(c.w, a2, r[a3], a4))
            \/ Is("Mask") /\ e.r[1] = Mask(a1, r[a2], r[a3]) /\ Same
            \/ Is("IsZero") /\ e.r[1] = [k \in 1..c.n |-> r[a1][k] = 0] /\ Same
            \/ Is("Not") /\ Set(a1, [k \in 1..c.n |-> -r[a2][k] - 1])
            \/ Is("Pick") /\ Set(a1, Pick(r[a2], a3))
            \/ Is("Sum") /\ e.r[1] = SumOf(r[a1]) /\ Same
            \/ Is("First") /\ e.r[1] = r[a1][1] /\ Same
            \/ Is("Conv") /\ e.r[1] = r[a1] /\ Same                                                          \* to another lane type and back
            \/ Is("Div") /\ Set(a1, e.r[1]) /\ (\A k \in 1..c.n : e.r[1][k] * r[a3][k] = r[a2][k])
            (* a1: fourths *)
            \/ Is("Floor") /\ e.r[1] = [k \in 1..c.n |-> FloorDiv(a1[k], 4)] /\ Same
            \/ Is("Ceil") /\ e.r[1] = [k \in 1..c.n |-> -FloorDiv(-a1[k], 4)] /\ Same
            \/ Is("Trunc") /\ e.r[1] = [k \in 1..c.n |-> TruncDiv(a1[k], 4)] /\ Same
            \/ Is("Round") /\ (\A k \in 1..c.n : LET d == 4 * e.r[1][k] - a1[k] IN d >= -2 /\ d <= 2) /\ Same
FixStep == \/ Is("FromInt") /\ Set(a1, a2 * Pow2(c.d))
           \/ Is("FromNum") /\ Set(a1, TruncDiv(a2 * Pow2(c.d), 16))                                         \* a2 / 16, as float or double
           \/ Is("ToInt") /\ e.r[1] = FloorDiv(r[a1], Pow2(c.d)) /\ Same
           \/ Is("ToNum") /\ e.r[1] = r[a1] /\ Same                                                          \* times 2^d
           \/ Is("Add") /\ Set(a1, r[a2] + Rescale(a3, a4, c.d))
           \/ Is("Sub") /\ Set(a1, r[a2] + Rescale(-a3, a4, c.d))
           \/ Is("Mul") /\ Set(a1, FMul(r[a2], a3, a4))
           \/ Is("FDiv") /\ Set(a1, FDiv(r[a2], a3, a4))
           \/ Is("Mod") /\ Set(a1, Rem(r[a2], a3))
           \/ Is("Neg") /\ Set(a1, -r[a2])
           \/ Is("Shl") /\ Set(a1, r[a2] * Pow2(a3))
           \/ Is("Shr") /\ Set(a1, FloorDiv(r[a2], Pow2(a3)))
           \/ Is("FCmp") /\ e.r[1] = [k \in 1..6 |-> Holds(<<"<", "<=", ">", ">=", "==", "!=">>[k], r[a1], r[a2])] /\ Same
           \/ Is("Convert") /\ e.r[1] = Rescale(r[a1], c.d, a2) /\ Same
           \/ Is("Recip") /\ Recip(r[a1], e.r[1]) /\ Same
DualStep == \/ Is("JLoad") /\ Set(a1, a2)
            \/ Is("JAdd") /\ Set(a1, JAdd(r[a2], a3))
            \/ Is("JSub") /\ Set(a1, JSub(r[a2], a3))
            \/ Is("JRSub") /\ Set(a1, JSub(a3, r[a2]))
            \/ Is("JMul") /\ Set(a1, JMul(r[a2], a3))
            \/ Is("JDiv") /\ JMul(e.r[1], a3) = r[a2] /\ Set(a1, e.r[1])
            \/ Is("JInv") /\ JMul(e.r[1], r[a2]) = JConst(c.n, a3) /\ Set(a1, e.r[1])
            \/ Is("JNeg") /\ Set(a1, JNeg(r[a2]))
            \/ Is("JAbs") /\ Set(a1, IF r[a2][1] < 0 THEN JNeg(r[a2]) ELSE r[a2])
            \/ Is("JPow") /\ Set(a1, JPow(r[a2], a3))
            \/ Is("JRoot") /\ JMul(JMul(e.r[1], r[a2]), JPow(r[a2], a3 - 1)) = JConst(c.n, 1) /\ Set(a1, e.r[1])   \* to the power -a3
            \/ Is("JSin") /\ r[a2][1] = 0 /\ Set(a1, JSin0(r[a2]))
            \/ Is("JCos") /\ r[a2][1] = 0 /\ Set(a1, JCos0(r[a2]))
            \/ Is("JExp") /\ r[a2][1] = 0 /\ Set(a1, JExp0(r[a2]))
            \/ Is("JLog") /\ r[a2][1] = 1 /\ Set(a1, JLog1(r[a2]))
            \/ Is("JLog10") /\ r[a2][1] = 1 /\ e.r[1] = JLog1(r[a2]) /\ Same                                 \* times the logarithm of 10
            \/ Is("JPowJ") /\ r[a2][1] = 1 /\ Set(a1, JPowJ1(r[a2], a3))
Step == \/ Is("Load") /\ Set(a1, a2)
        \/ Is("Copy") /\ Set(a1, r[a2])
        \/ c.kind = "lane" /\ LaneStep
        \/ c.kind = "fixed" /\ FixStep
        \/ c.kind = "dual" /\ DualStep
Observed == e.s = r'
TNext == \/ More(run, l) /\ Step /\ Observed /\ l' = l + 1 /\ UNCHANGED run
         \/ ~More(run, l) /\ UNCHANGED vars
=============================================================================
