------------------------------ MODULE IntSpec -------------------------------
(* Integer and bit utilities.  Machine integers of any width are sequences of bytes, least significant first, because  *)
(* TLC's own integers are 32 bits wide; a signed value is <<sign, magnitude>> with sign 0 or 1.                        *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Ripple(_, _, _, _), P2(_), LtAt(_, _, _)
At(x, i) == IF i >= 1 /\ i <= Len(x) THEN x[i] ELSE 0
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
Pow == [k \in 0..7 |-> P2(k)]
Max2(a, b) == IF a > b THEN a ELSE b
Ripple(d, i, c, n) == IF i > n THEN <<>> ELSE LET t == At(d, i) + c IN <<t % 256>> \o Ripple(d, i + 1, t \div 256, n)
\* arithmetic modulo 2^(8n)
Add(x, y, n) == Ripple([i \in 1..n |-> At(x, i) + At(y, i)], 1, 0, n)
Sub(x, y, n) == Ripple([i \in 1..n |-> At(x, i) - At(y, i)], 1, 0, n)
Dot(x, y, k) == LET F[i \in 0..k] == IF i = 0 THEN 0 ELSE F[i-1] + At(x, i) * At(y, k + 1 - i) IN F[k]
Mul(x, y, n) == Ripple([k \in 1..n |-> Dot(x, y, k)], 1, 0, n)
LtAt(x, y, i) == IF i = 0 THEN FALSE ELSE IF At(x, i) # At(y, i) THEN At(x, i) < At(y, i) ELSE LtAt(x, y, i - 1)
Lt(x, y) == LtAt(x, y, Max2(Len(x), Len(y)))
Same(x, y) == ~Lt(x, y) /\ ~Lt(y, x)
Zero(x) == \A i \in 1..Len(x) : x[i] = 0
Bit(x, k) == (At(x, (k \div 8) + 1) \div Pow[k % 8]) % 2
Width(x) == 8 * Len(x)
Ones(x) == {k \in 0..(Width(x) - 1) : Bit(x, k) = 1}
TwoC(s, n) == IF s[1] = 1 THEN Sub(<<>>, s[2], n) ELSE Add(s[2], <<>>, n)
Small(v) == Ripple(<<v % 256, (v \div 256) % 256>>, 1, 0, 2)
\* ---- unsigned values
Highest(x) == CHOOSE k \in Ones(x) : \A j \in Ones(x) : j <= k
Log2(x) == IF Zero(x) THEN 0 ELSE Highest(x)
UpPow2(x) == IF Cardinality(Ones(x)) = 1 THEN Highest(x) ELSE Highest(x) + 1     \* the exponent of the least power of two >= x > 0
IsSqrt(n, r) == LET w == 2 * Len(n) + 2 IN ~Lt(n, Mul(r, r, w)) /\ Lt(n, Mul(Add(r, <<1>>, w), Add(r, <<1>>, w), w))
\* ---- signed values
IsFloorDiv(x, d, q) == LET n == 2 * Len(x[2]) + 1 r == Sub(TwoC(x, n), Mul(TwoC(q, n), TwoC(d, n), n), n) IN Lt(r, d[2])
IsMod(x, m, r, k) == LET n == 2 * Len(x[2]) + 1 IN r[1] = 0 /\ Lt(r[2], m[2]) /\ Add(Mul(TwoC(k, n), TwoC(m, n), n), r[2], n) = TwoC(x, n)
\* bits shift .. of the double-width product
ProdBit(x, y, n, signed, k) == LET p == Mul(TwoC(x, 2 * n), TwoC(y, 2 * n), 2 * n) IN
                               IF k < 16 * n THEN Bit(p, k) ELSE IF signed THEN Bit(p, 16 * n - 1) ELSE 0
IsExtract(x, y, n, signed, s, r) == LET p == Mul(TwoC(x, 2 * n), TwoC(y, 2 * n), 2 * n) rr == TwoC(r, n) IN
   \A k \in 0..(8 * n - 1) : Bit(rr, k) = (IF s + k < 16 * n THEN Bit(p, s + k) ELSE IF signed THEN Bit(p, 16 * n - 1) ELSE 0)
RangeMask(w, lo, hi) == {k % w : k \in lo..hi}
\* ---- the calendar: days since 1 January 1970 in the proleptic Gregorian calendar
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Leaps(y) == (y \div 4) - (y \div 100) + (y \div 400)
MonthLen(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> IF Leap(y) THEN 29 ELSE 28
Before(y, m) == LET F[i \in 0..12] == IF i = 0 THEN 0 ELSE F[i-1] + MonthLen(y, i) IN F[m - 1]
Days(y, m, d) == 365 * (y - 1970) + Leaps(y - 1) - Leaps(1969) + Before(y, m) + d - 1
\* ---- sorted sequences
UpperBound(q, f, t, v) == f + Cardinality({i \in (f+1)..t : q[i] <= v})
LowerBound(q, f, t, v) == f + Cardinality({i \in (f+1)..t : q[i] < v})
\* ---- breadth-first order of a binary tree given by child tables (0: none)
RECURSIVE Bfs(_, _, _)
Bfs(queue, L, R) == IF queue = <<>> THEN <<>> ELSE LET h == Head(queue) IN
  <<h>> \o Bfs(Tail(queue) \o (IF L[h] # 0 THEN <<L[h]>> ELSE <<>>) \o (IF R[h] # 0 THEN <<R[h]>> ELSE <<>>), L, R)
\* ---- FNV-1a
XorByte(a, b) == LET F[k \in 0..8] == IF k = 0 THEN 0 ELSE F[k-1] + (IF (a \div Pow[k-1]) % 2 # (b \div Pow[k-1]) % 2 THEN Pow[k-1] ELSE 0) IN F[8]
RECURSIVE Fnv(_, _, _)
Fnv(h, s, prime) == IF s = <<>> THEN h ELSE Fnv(Mul([h EXCEPT ![1] = XorByte(h[1], Head(s))], prime, Len(h)), Tail(s), prime)
Fnv32(s) == Fnv(<<197, 157, 28, 129>>, s, <<147, 1, 0, 1>>)
Fnv64(s) == Fnv(<<37, 35, 34, 132, 228, 156, 242, 203>>, s, <<179, 1, 0, 0, 0, 1>>)
=============================================================================
