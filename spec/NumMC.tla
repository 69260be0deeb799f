------------------------------- MODULE NumMC -------------------------------
(* The rules hang together: the derivative rules form a ring with division, scaling loses nothing it can keep. *)
EXTENDS NumSpec
CONSTANT D
E == -1..1
Jets == {<<a, b, x>> : a, b, x \in E}
Init == r = <<<<1, 1, 0>>, <<0, 1, 0>>>>
Small(x) == \A k \in 1..3 : x[k] >= -D /\ x[k] <= D
Next == \E i, j, k \in 1..2 : \/ \E x \in Jets : Set(i, x)
                              \/ \E f \in {JAdd(r[j], r[k]), JSub(r[j], r[k]), JMul(r[j], r[k])} : Small(f) /\ Set(i, f)
                              \/ r[j][1] = 0 /\ \E f \in {JSin0(r[j]), JCos0(r[j]), JExp0(r[j])} : Small(f) /\ Set(i, f)
                              \/ r[j][1] = 1 /\ Small(JLog1(r[j])) /\ Set(i, JLog1(r[j]))
Spec == Init /\ [][Next]_r
Rules == LET a == r[1] b == r[2] one == JConst(3, 1) IN
         /\ JMul(a, b) = JMul(b, a) /\ JMul(a, one) = a /\ JAdd(a, JNeg(a)) = JConst(3, 0)
         /\ (\A x \in Jets : JMul(a, JAdd(b, x)) = JAdd(JMul(a, b), JMul(a, x)) /\ JMul(a, JMul(b, x)) = JMul(JMul(a, b), x))
         /\ JPow(a, 3) = JMul(a, JMul(a, a))
         /\ (a[1] = 0 => JAdd(JMul(JSin0(a), JSin0(a)), JMul(JCos0(a), JCos0(a))) = one /\ JLog1(JExp0(a)) = a)
         /\ (a[1] = 1 => JExp0(JLog1(a)) = a /\ JPowJ1(a, JConst(3, 2)) = JMul(a, a))
         /\ (a[1] = 0 /\ b[1] = 0 => JMul(JExp0(a), JExp0(b)) = JExp0(JAdd(a, b)))
Fixpt == /\ \A b \in -9..9, d \in 0..4, f \in 0..4 : Rescale(Rescale(b, d, d + f), d + f, d) = b
         /\ \A b \in -9..9, d \in 0..3 : FMul(b * Pow2(d), Pow2(d), d) = b * Pow2(d) /\ FDiv(b, Pow2(d), d) = b
         /\ \A x \in -9..9, y \in (-9..9) \ {0} : Rem(x, y) + y * TruncDiv(x, y) = x
Packed == /\ \A a, b \in {-128, -127, -3, -1, 0, 1, 5, 127} : Wrap(8, Wrap(8, a + b) - b) = a /\ Lane("+", Lane("&", a, b), Lane("|", a, b)) = a + b /\ Lane("^", Lane("^", a, b), b) = a
          /\ \A p \in [1..4 -> 0..3] : Pick(<<7, 8, 9, 6>>, p) = [k \in 1..4 |-> <<7, 8, 9, 6>>[p[k] + 1]]
ASSUME Fixpt /\ Packed
=============================================================================
