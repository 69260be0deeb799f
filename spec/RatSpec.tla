------------------------------- MODULE RatSpec ------------------------------
(* Rational numbers as pairs <<n, d>> in lowest terms with d > 0, and the gcd-reducing algorithms of the      *)
(* library (AlgAdd, AlgMul, AlgDiv), which are checked to compute the exact normalised result for every pair in the bound.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(Abs(b), Abs(a) % Abs(b))
Quo(a, b) == IF (a >= 0) = (b > 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))     \* C division
Norm(n, d) == LET g == Gcd(n, d) s == IF d < 0 THEN -1 ELSE 1 IN IF n = 0 THEN <<0, 1>> ELSE <<s * Quo(n, g), s * Quo(d, g)>>
IsRat(r) == r[2] > 0 /\ Gcd(r[1], r[2]) = 1
Plus(a, b) == Norm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
Minus(a, b) == Norm(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
Times(a, b) == Norm(a[1] * b[1], a[2] * b[2])
Over(a, b) == Norm(a[1] * b[2], a[2] * b[1])
Less(a, b) == a[1] * b[2] < b[1] * a[2]
AlgAdd(a, b, s) == LET g == Gcd(a[2], b[2]) d1 == Quo(a[2], g) n1 == a[1] * Quo(b[2], g) + s * b[1] * d1 g2 == Gcd(n1, g)
                   IN <<Quo(n1, g2), d1 * Quo(b[2], g2)>>
AlgMul(a, b) == LET g1 == Gcd(a[1], b[2]) g2 == Gcd(b[1], a[2]) IN <<Quo(a[1], g1) * Quo(b[1], g2), Quo(a[2], g2) * Quo(b[2], g1)>>
AlgDiv(a, b) == IF a[1] = 0 THEN a ELSE LET g1 == Gcd(a[1], b[1]) g2 == Gcd(b[2], a[2]) n == Quo(a[1], g1) * Quo(b[2], g2) d == Quo(a[2], g2) * Quo(b[1], g1)
                IN IF d < 0 THEN <<-n, -d>> ELSE <<n, d>>
=============================================================================
