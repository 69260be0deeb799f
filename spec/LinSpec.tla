------------------------------ MODULE LinSpec ------------------------------
(* Vectors are sequences of integers, matrices sequences of rows.  Two registers of each; operations replace a register by  *)
(* a function of registers, also of itself.  Everything is exact: operands are small integers, which every element type     *)
(* holds, and divisions and inverses are used where the result is (a quarter of) an integer.                                *)
EXTENDS Integers, Sequences
VARIABLES v, m
lv == <<v, m>>
Dim(x) == Len(x)
Op2(op, a, b) == CASE op = "+" -> a + b [] op = "-" -> a - b [] op = "*" -> a * b [] op = "^" -> a * b
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Abs1(a) == IF a < 0 THEN -a ELSE a
Dot(a, b) == Sum([k \in 1..Len(a) |-> a[k] * b[k]])
Zip(op, a, b) == [k \in 1..Len(a) |-> Op2(op, a[k], b[k])]
Map1(op, a, s) == [k \in 1..Len(a) |-> Op2(op, a[k], s)]
Quot(q, a, b) == Len(q) = Len(a) /\ \A k \in 1..Len(a) : q[k] * b[k] = a[k]                 \* q = a / b, where that is exact
Cross3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Cross2(a, b) == a[1] * b[2] - a[2] * b[1]
RECURSIVE Lex(_, _, _)
Lex(a, b, k) == IF k > Len(a) THEN 0 ELSE IF a[k] < b[k] THEN -1 ELSE IF a[k] > b[k] THEN 1 ELSE Lex(a, b, k + 1)
Compare(a, b) == LET c == Lex(a, b, 1) IN <<c < 0, c <= 0, c > 0, c >= 0, c = 0, c # 0>>
CompareS(a, s) == <<\A k \in 1..Len(a) : a[k] < s, \A k \in 1..Len(a) : a[k] <= s, \A k \in 1..Len(a) : a[k] > s, \A k \in 1..Len(a) : a[k] >= s,
                    \A k \in 1..Len(a) : a[k] = s, \E k \in 1..Len(a) : a[k] # s>>
(* ---- matrices ---- *)
Col(a, k) == [i \in 1..Len(a) |-> a[i][k]]
Cols(a) == Len(a[1])
Mul(a, b) == [i \in 1..Len(a) |-> [j \in 1..Cols(b) |-> Dot(a[i], Col(b, j))]]
RowMul(x, a) == [j \in 1..Cols(a) |-> Dot(x, Col(a, j))]
ColMul(a, x) == [i \in 1..Len(a) |-> Dot(a[i], x)]
Trans(a) == [j \in 1..Cols(a) |-> Col(a, j)]
Diag(d) == [i \in 1..Len(d) |-> [j \in 1..Len(d) |-> IF i = j THEN d[i] ELSE 0]]
Ident(n) == Diag([k \in 1..n |-> 1])
Outer(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b) |-> a[i] * b[j]]]
MZip(op, a, b) == [i \in 1..Len(a) |-> Zip(op, a[i], b[i])]
MMap(op, a, s) == [i \in 1..Len(a) |-> Map1(op, a[i], s)]
Minor(a, j) == [i \in 1..Len(a) - 1 |-> [k \in 1..Len(a) - 1 |-> a[i + 1][IF k < j THEN k ELSE k + 1]]]
RECURSIVE Det(_)
Det(a) == IF Len(a) = 1 THEN a[1][1] ELSE Sum([j \in 1..Len(a) |-> (IF j % 2 = 1 THEN 1 ELSE -1) * a[1][j] * Det(Minor(a, j))])
(* r is k times the inverse of a *)
Inverse(a, r, k) == Mul(a, r) = MMap("*", Ident(Len(a)), k) /\ Mul(r, a) = MMap("*", Ident(Len(a)), k)
(* ---- rotations by quarter turns, translations ---- *)
Cq(q) == CASE q % 4 = 0 -> 1 [] q % 4 = 1 -> 0 [] q % 4 = 2 -> -1 [] q % 4 = 3 -> 0
Sq(q) == CASE q % 4 = 0 -> 0 [] q % 4 = 1 -> 1 [] q % 4 = 2 -> 0 [] q % 4 = 3 -> -1
Rot2(q) == <<<<Cq(q), -Sq(q)>>, <<Sq(q), Cq(q)>>>>
(* the rotation in the plane of axes i and j (from i towards j) in n dimensions *)
RotIn(n, i, j, q) == [a \in 1..n |-> [b \in 1..n |-> IF (a = i /\ b = i) \/ (a = j /\ b = j) THEN Cq(q) ELSE IF a = i /\ b = j THEN -Sq(q) ELSE IF a = j /\ b = i THEN Sq(q) ELSE IF a = b THEN 1 ELSE 0]]
Rot(n, axis, q) == CASE axis = "x" -> RotIn(n, 2, 3, q) [] axis = "y" -> RotIn(n, 3, 1, q) [] axis = "z" -> RotIn(n, 1, 2, q)
Shift(n, d) == [a \in 1..n |-> [b \in 1..n |-> IF a = b THEN 1 ELSE IF b = n /\ a <= Len(d) THEN d[a] ELSE 0]]
(* move to d after turning around the point c *)
Affine(n, d, q, c) == Mul(Shift(n, d), Mul(Shift(n, c), Mul(RotIn(n, 1, 2, q), Shift(n, [k \in 1..Len(c) |-> -c[k]]))))
(* the rotation of a unit quaternion x, y, z, w: p to q p q*, given times k*k for a quaternion of length k *)
QRot(q) == LET x == q[1] y == q[2] z == q[3] w == q[4] kk == Dot(q, q) IN
           <<<<kk - 2 * (y*y + z*z), 2 * (x*y - z*w), 2 * (x*z + y*w)>>, <<2 * (x*y + z*w), kk - 2 * (x*x + z*z), 2 * (y*z - x*w)>>, <<2 * (x*z - y*w), 2 * (y*z + x*w), kk - 2 * (x*x + y*y)>>>>
(* ---- registers ---- *)
SetV(k, x) == v' = [v EXCEPT ![k] = x] /\ UNCHANGED m
SetM(k, x) == m' = [m EXCEPT ![k] = x] /\ UNCHANGED v
Same == UNCHANGED lv
=============================================================================
