------------------------------ MODULE NumSpec ------------------------------
(* Two registers r[1], r[2] that hold values of one numeric type: the lanes of a packed vector, the bits of a fixed-point   *)
(* number, or a value with its first derivatives.  Each operation means what it means for one lane, for the number that     *)
(* the bits stand for, or by the rules of differentiation.                                                                  *)
EXTENDS Integers, Sequences, Bitwise
VARIABLE r
Pow2(k) == 2^k
FloorDiv(a, b) == a \div b                                   \* b > 0: TLA's \div is floor
TruncDiv(a, b) == LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
Rem(a, b) == a - b * TruncDiv(a, b)
(* ---- lanes: w bits two's complement, or w = 0: no wrapping ---- *)
Wrap(w, a) == IF w = 8 \/ w = 16 THEN LET u == a % Pow2(w) IN (IF u >= Pow2(w - 1) THEN u - Pow2(w) ELSE u) ELSE a
U16(a) == a % 65536
S16(u) == IF u >= 32768 THEN u - 65536 ELSE u
Lane(op, a, b) == CASE op = "+" -> a + b [] op = "-" -> a - b [] op = "*" -> a * b
                    [] op = "&" -> S16(U16(a) & U16(b)) [] op = "|" -> S16(U16(a) | U16(b)) [] op = "^" -> S16(U16(a) ^^ U16(b))
                    [] op = "min" -> (IF a < b THEN a ELSE b) [] op = "max" -> (IF a > b THEN a ELSE b)
                    [] op = "<<" -> a * Pow2(b) [] op = ">>" -> a \div Pow2(b)
Lanes(w, op, a, b) == [k \in 1..Len(a) |-> Wrap(w, Lane(op, a[k], b[k]))]
LanesS(w, op, a, s) == [k \in 1..Len(a) |-> Wrap(w, Lane(op, a[k], s))]
Holds(op, a, b) == CASE op = "<" -> a < b [] op = "<=" -> a <= b [] op = ">" -> a > b [] op = ">=" -> a >= b [] op = "==" -> a = b [] op = "!=" -> a # b
Mask(op, a, b) == [k \in 1..Len(a) |-> Holds(op, a[k], b[k])]
Pick(a, p) == [k \in 1..Len(p) |-> a[p[k] + 1]]
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))
(* ---- fixed point: the number is bits / 2^d ---- *)
Rescale(b, from, to) == IF to >= from THEN b * Pow2(to - from) ELSE FloorDiv(b, Pow2(from - to))
FMul(x, y, dy) == FloorDiv(x * y, Pow2(dy))
FDiv(x, y, dy) == TruncDiv(x * Pow2(dy), y)
(* the reciprocal of bits / 2^d is q / 2^(30 - d) with the remainder left out *)
Recip(bits, q) == LET a == (IF bits < 0 THEN -bits ELSE bits) p == (IF bits < 0 THEN -q ELSE q) IN p >= 0 /\ p * a <= Pow2(30) /\ Pow2(30) - p * a < a
(* ---- jets <<f, f'>> or <<f, f', f''>> ---- *)
JAdd(a, b) == [k \in 1..Len(a) |-> a[k] + b[k]]
JSub(a, b) == [k \in 1..Len(a) |-> a[k] - b[k]]
JNeg(a) == [k \in 1..Len(a) |-> -a[k]]
Cut(n, s) == SubSeq(s, 1, n)
JMul(a, b) == Cut(Len(a), <<a[1] * b[1], a[1] * b[2] + a[2] * b[1]>> \o (IF Len(a) = 3 THEN <<a[1] * b[3] + 2 * a[2] * b[2] + a[3] * b[1]>> ELSE <<>>))
JConst(n, c) == Cut(n, <<c, 0, 0>>)
RECURSIVE JPow(_, _)
JPow(a, k) == IF k = 0 THEN JConst(Len(a), 1) ELSE JMul(a, JPow(a, k - 1))
D2(a) == IF Len(a) = 3 THEN a[3] ELSE 0
JSin0(a) == Cut(Len(a), <<0, a[2], D2(a)>>)                        \* at f = 0
JCos0(a) == Cut(Len(a), <<1, 0, -a[2] * a[2]>>)
JExp0(a) == Cut(Len(a), <<1, a[2], D2(a) + a[2] * a[2]>>)
JLog1(a) == Cut(Len(a), <<0, a[2], D2(a) - a[2] * a[2]>>)          \* at f = 1
JPowJ1(f, g) == JExp0(JMul(g, JLog1(f)))                           \* f to the g, at f = 1
Set(i, x) == r' = [r EXCEPT ![i] = x]
=============================================================================
